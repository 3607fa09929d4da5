NOT_APPLICABLE = {}
NOTES = {}
