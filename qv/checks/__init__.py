from ..props import PROPS

REGISTRY = {p["id"]: (p["mod"], p) for p in PROPS if p["mod"]}
