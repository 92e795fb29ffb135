"""python3 check.py <property>: decide one property on the current tree."""
import importlib
import json
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
threading.stack_size(512 << 20)

MODULES = {
    "C01": "p_sexp", "C02": "p_sexp", "C05": "p_sexp",
    "C03": "p_lines", "C04": "p_lines", "C24": "p_keyword", "C22": "p_pure", "C10": "p_fail", "C11": "p_fail", "C08": "p_panic", "C09": "p_term", "C12": "p_layout", "C06": "p_drop", "C18": "p_klc", "C17": "p_klc", "C15": "p_bounds", "C07": "p_columns",
    "C19": "p_lookup", "C20": "p_lookup", "C23": "p_lookup", "C21": "p_equal", "C13": "p_effects", "C14": "p_effects", "C16": "p_effects",
}


def main():
    from build import ensure_dump, BuildError
    prop = sys.argv[1]
    try:
        dump = ensure_dump()
    except BuildError as e:
        print(e)
        return 2
    from program import Program
    m = importlib.import_module(MODULES[prop])
    return m.check(prop, Program(dump))


if __name__ == "__main__":
    out = []

    def go():
        try:
            out.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
            out.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
