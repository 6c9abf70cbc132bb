"""Receiver types that the code fixes by construction but that are not syntactically evident
(parameters, heterogeneous containers).  Used only to resolve callees."""

P = "tfchain.types.PrimitiveTypes."
HINTS = {}
