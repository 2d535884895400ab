"""
check.py ID [--thorough] [--replay FILE]: run the check of a property, see DESIGN.md.
"""

import os
import sys

PYTHON = "/opt/venv/bin/python"
HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(
            os.environ,
            VERIF_CHILD="1",
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
        )
        env.pop("PYTHONPATH", None)
        os.execve(
            PYTHON,
            [PYTHON, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:],
            env,
        )
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    # After the packages of the project, so that it runs with its own dependencies
    sys.path.append(HYPOTHESIS)
    # Nothing is written in the working directory
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = "/tmp/verif-hypothesis-unused"
    if sys.argv[1:] == ["--setup"]:
        # Nothing to build: only see that everything is there
        import hypothesis  # noqa: F401

        from lib import gen, real, ref  # noqa: F401

        print("ready")
        sys.exit(0)

    from lib import harness

    sys.exit(harness.main(sys.argv[1], sys.argv[2:]))
