"""P22: the keys of a dictionary (see order.py)"""
from rules.order import check22 as check  # noqa: F401
