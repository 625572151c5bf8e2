PORTABLE_STRING = str
PORTABLE_BYTES = bytes
