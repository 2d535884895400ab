"""Writes lib/literals.json, from the sources of /repo as they are."""

import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent.parent))

from lib import directed  # noqa: E402

directed.KNOWN.write_text(json.dumps(directed.literals("/repo"), indent=1, sort_keys=True) + "\n")
