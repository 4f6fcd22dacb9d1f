import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common


def main():
    pid = sys.argv[1]
    mir, prods, key = None, None, None
    import registry
    rule, fn = registry.CHECKS[pid]['rule'], registry.CHECKS[pid]['fn']
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    ck = common.Check(pid, rule)
    try:
        mir, prods, key = build.load()
    except build.BuildError as e:
        print('build failed: ' + str(e))
        return 3
    ck.cov['source_key'] = key[:16]
    import emitter, lexer, interp
    try:
        with common.limit(780 if ck.tier == 'quick' else 7200):
            fn(mir, prods, ck)
    except (emitter.Anchor, lexer.Missing) as e:
        if not ck.viol:
            print('%s: not decided: the code does not have the expected public shape: %s' % (pid, e))
            return 3
        ck.unknown('anchor', str(e))
    except interp.Budget as e:
        ck.unknown('limit', str(e))
    except (ImportError, MemoryError):
        raise
    except Exception as e:
        if os.environ.get('VERIF_STRICT'):
            raise
        import traceback
        traceback.print_exc()
        ck.unknown('internal', 'the analysis failed: %s: %s' % (type(e).__name__, e))
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
