import importlib, os, sys, traceback
import vf
AREA = {}
def area(mod, ids):
    for i in ids.split():
        AREA[i] = mod
area("c_graph", "C09")
area("c_config", "C01")
area("c_geom", "C24 C26")
area("c_detect", "C02 C03 C04")
area("c_keypoints", "C05")
area("c_calib", "C06 C07 C08 C10 C11 C12 C13 C14 C15 C16 C17 C18")
area("c_scripts", "C27")
area("c_files", "C19 C20 C21 C22 C23 C25")
def main():
    pid = sys.argv[1]
    try:
        return importlib.import_module(AREA[pid]).check(pid)
    except vf.Broken as e:
        print("ERROR of the check %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
sys.exit(main())
