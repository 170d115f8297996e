"""Reading succeeds exactly when the constraints of the grammar in lib/obuspec.py hold, without undefined behaviour, exceptions or aborts; counts and sizes are bounded before they are followed."""
import obucheck

RULE = ('reading succeeds exactly when the constraints of the grammar in lib/obuspec.py hold, without undefined behaviour, exceptions or aborts; counts and sizes are bounded before they are followed')


def run():
    return obucheck.run('C08', 'verdict', RULE, ['bit buffers behave as decided by C12', 'repetitions beyond 3 (7 in the grammar) are not followed',
                                         'sizes of LEB128 fields are kept as read'], [('kinds and restrictions', 60), ('partitions', 2000)])
