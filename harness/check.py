"""usage: python3-vt harness/check.py <property>"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import Check, MachineryError  # noqa: E402


def main():
    pid = sys.argv[1]
    import registry
    chk = Check(pid)
    try:
        registry.CHECKS[pid](chk)
    except MachineryError as e:
        print(f"ERROR property={pid} the check gives no answer: {e}")
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid} the check gives no answer")
        sys.exit(2)
    chk.finish()


if __name__ == "__main__":
    main()
