"""Stand-in for lsst.pex.exceptions: the Python-visible class hierarchy."""
import builtins

__all__ = [
    "Exception", "LogicError", "DomainError", "InvalidParameterError", "LengthError",
    "OutOfRangeError", "RuntimeError", "RangeError", "OverflowError", "UnderflowError",
    "NotFoundError", "IoError", "TypeError", "TimeoutError", "InvalidTypeError",
]


class Exception(builtins.Exception):
    def __init__(self, arg="", *args, **kwds):
        builtins.Exception.__init__(self, arg, *args, **kwds)

    def what(self):
        return str(self)

    def getMessage(self):
        return str(self)


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError, builtins.IndexError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class RangeError(RuntimeError):
    pass


class OverflowError(RuntimeError, builtins.OverflowError):
    pass


class UnderflowError(RuntimeError, builtins.ArithmeticError):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass


class IoError(RuntimeError, builtins.IOError):
    pass


class TypeError(LogicError, builtins.TypeError):
    pass


InvalidTypeError = TypeError


class TimeoutError(RuntimeError):
    pass
