"""Import coinflip from /repo's working tree, never from stale bytecode."""
import importlib.machinery
import os
import sys

REPO = os.environ.get("COINFLIP_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))

_get_code = importlib.machinery.SourceFileLoader.get_code


def get_code(self, name):
    if name == "coinflip" or name.startswith("coinflip."):
        return self.source_to_code(self.get_data(self.path), self.path)
    return _get_code(self, name)


importlib.machinery.SourceFileLoader.get_code = get_code
