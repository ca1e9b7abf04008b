import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')


class NoAnswer(Exception):
    """The check could not decide anything."""
