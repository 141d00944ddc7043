"""P21: the comparisons of values (see order.py)"""
from rules.order import check21 as check  # noqa: F401
