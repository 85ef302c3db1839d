__version__ = "pinned"
__all__ = ("__version__",)
