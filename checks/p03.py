"""Compact printing -> reading back, one line, requested escapes."""
import p02
from wk import *
def run(ctx): p02.run(ctx, True)
