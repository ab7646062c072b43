import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "checks")]
import common

GROUPS = {
    "slide": "S01 S02 S03 S04 L01 L02 L03 L04 L05 Z01 X01",
    "deck": "D01 D02 D03 D04 D05 D06 D07",
    "cache": "C01 C02 C03 C05",
    "ensure": "C04",
    "shell": "I01 I02",
    "text": "T01 T02 T03 T04 T05 T06",
    "image": "G01 G02 G03",
    "ext": "E01 E02 E03",
    "viewer": "J01",
    "xmlout": "W01",
    "shapes": "W02 B01 B02",
    "ctext": "B03",
}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    group = [g for g, ids in GROUPS.items() if pid in ids.split()]
    if not group:
        sys.exit("unknown property " + pid)
    check = common.Check(pid, tier)
    try:
        importlib.import_module(group[0]).run(check)
        rc = check.finish()
    except common.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        common.cleanup()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
