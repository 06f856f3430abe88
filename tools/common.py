"""Verdicts that end a check."""


class ToolError(Exception):
    """no answer"""


class Violation(Exception):
    """broken; the argument is the replay file"""
