"""Languages with their own way of reading and writing."""
import re

from parce import Language, lexicon
from parce.action import Text
from parce.docio import IO


class Own(Language):
    @lexicon
    def root(cls):
        yield r"\w+", Text


class OwnIO(IO):
    def default_encoding(self):
        return "latin1"


class Child(Own):
    """Uses OwnIO."""


class Other(Own):
    """Has its own IO."""


class OtherIO(IO):
    def default_encoding(self):
        return "utf_16_le"

    def find_encoding(self, text):
        m = re.search("@@([^@]*)@@", text)
        return m and m.group(1)


class Plain(Language):
    @lexicon
    def root(cls):
        yield r"\w+", Text


class PlainIO:
    """Is not an IO."""
    def default_encoding(self):
        return "latin1"
