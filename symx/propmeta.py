"""Per-property metadata, importable without loading the project."""
import importlib


class Meta:
    def __init__(self, mod, pid):
        self.mod, self.pid = mod, pid

    def configs(self, tier):
        return list(self.mod.configs(tier))

    def budget(self, tier):
        d = getattr(self.mod, "BUDGET", {})
        return d.get(tier, 150 if tier == "quick" else 600)

    def validate_p(self, tier):
        return getattr(self.mod, "VALIDATE_P", 0.1)

    def bounds(self, tier):
        return getattr(self.mod, "BOUNDS", "")

    def stubs(self):
        return getattr(self.mod, "STUBS", [])


def load(pid):
    return Meta(importlib.import_module("symx.props." + pid), pid)
