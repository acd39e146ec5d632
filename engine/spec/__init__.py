from . import thing, link_form, security, schema, affordance, whole, gates, nums, langs, ext, ser, de, dflt, eq, bound, hl, anyschema, kept
from . import stages
from . import effects
