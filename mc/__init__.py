"""Exhaustive, bounded exploration of CDTB (see DESIGN.md)"""
