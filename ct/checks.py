"""Registry of the checks."""
CHECKS = {}
def check(pid, level, rule, technique, note, **kw):
    def f(fn):
        CHECKS[pid] = dict(fn=fn, level=level, rule=rule, technique=technique, note=note, **kw)
        return fn
    return f
import c_scan
import c_struct
import c_wire
import c_coll
import c_forms
import c_skip
import c_slice
import c_file
import c_enc
import c_wit
import c_schema
import c_err
import c_pure
