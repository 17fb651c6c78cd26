"""Reference element table (IUPAC order), and the repository's tables seen through the same interface."""
from matersdk.io.pwmat.utils.parameters import atomic_number2specie, specie2atomic_number

from specs.symbols import SYMBOLS


def symbol_in_code(z):
    return atomic_number2specie[z]


def number_in_code(s):
    return specie2atomic_number[s]


def symbol_required(z):
    return SYMBOLS[z]


def there_and_back(z):
    return specie2atomic_number[atomic_number2specie[z]]


def same(z):
    return z


def size_in_code():
    return len(atomic_number2specie), len(specie2atomic_number)


def size_required():
    return len(SYMBOLS), len(SYMBOLS)
