"""A stand-in for validate_email: is the address well-formed?"""
import re
_RE = re.compile(r"^[A-Za-z0-9.!#$%&'*+/=?^_`{|}~-]+@[A-Za-z0-9-]+(?:\.[A-Za-z0-9-]+)*$")
def validate_email(email, check_mx=False, verify=False, **k):
    return _RE.match(email) is not None
