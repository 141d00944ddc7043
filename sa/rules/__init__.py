"""property -> (rule functions, description), from /verif/props.py"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
import props
TABLE = props.load()
