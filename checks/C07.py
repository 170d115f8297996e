"""Writing an OBU after it was read produces the same sequence of fields, sizes and bytes."""
import obucheck

RULE = ('writing an OBU after it was read produces the same sequence of fields, sizes and bytes (lib/obuspec.py names the deliberate exceptions)')


def run():
    return obucheck.run('C07', 'roundtrip', RULE, ['bit buffers behave as decided by C12', 'repetitions beyond 3 (7 in the grammar) are not followed',
                                         'sizes of LEB128 fields are kept as read'], [('kinds and restrictions', 60), ('partitions', 2000)])
