"""The code takes the fields of every OBU from the bit buffer in the order, with the widths and under the conditions of the grammar in lib/obuspec.py, and stores them unchanged."""
import obucheck

RULE = ('the code takes the fields of every OBU from the bit buffer in the order, with the widths and under the conditions of the grammar in lib/obuspec.py, and stores them unchanged')


def run():
    return obucheck.run('C06', 'syntax', RULE, ['bit buffers behave as decided by C12', 'repetitions beyond 3 (7 in the grammar) are not followed',
                                         'sizes of LEB128 fields are kept as read'], [('kinds and restrictions', 60), ('partitions', 2000)])
