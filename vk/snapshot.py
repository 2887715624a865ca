"""Snapshots of Python values: to see whether anything reachable has changed."""

from __future__ import annotations

import re
from collections import UserDict, UserList, deque
from collections.abc import Mapping, Set
from datetime import datetime
from typing import Any


def snapshot(root: object) -> list[Any]:
    """Contents, storage and identity structure of everything reachable.

    Two snapshots are equal iff nothing has changed.  Objects are kept alive by
    the caller, so ids identify them.
    """
    from v8serialize.jstypes import (
        JSArray,
        JSArrayBuffer,
        JSArrayBufferTransfer,
        JSDataView,
        JSError,
        JSErrorData,
        JSMap,
        JSObject,
        JSPrimitiveObject,
        JSSet,
        JSSharedArrayBuffer,
        JSTypedArray,
    )

    out: list[Any] = []
    seen: set[int] = set()
    todo: list[Any] = [root]

    def ref(x: object) -> Any:
        if x is None or isinstance(x, (bool, int, str)):
            return (type(x).__name__, x)
        if isinstance(x, float):
            return ("float", repr(x))
        if id(x) not in seen:
            todo.append(x)
        return (type(x).__name__, id(x))

    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        e: Any
        if isinstance(o, JSObject):  # and JSArray
            a = o.array
            e = (type(a).__name__, len(a), a.elements_used, [(i, ref(v)) for i, v in a.elements().items()])
            e = (e, [(k, ref(v)) for k, v in o.properties.items()])
            if isinstance(o, JSArray):
                e += (len(o.array),)
        elif isinstance(o, (JSMap, Mapping, UserDict)):
            e = [(ref(k), ref(v)) for k, v in o.items()]
        elif isinstance(o, (JSSet, Set, list, tuple, deque, UserList)):
            e = [ref(v) for v in o]
        elif isinstance(o, JSErrorData):
            e = (str(o.name), o.message, o.stack, ref(o.cause))
        elif isinstance(o, JSError):
            e = (str(o.name), o.message, o.stack, ref(o.cause), len(o.args), o.__cause__, o.__traceback__)
        elif isinstance(o, BaseException):
            e = (o.args, id(o.__cause__), id(o.__context__), id(o.__traceback__), getattr(o, "__notes__", None))
        elif isinstance(o, JSArrayBuffer):
            e = (bytes(o.data), o.resizable, o.max_byte_length)
        elif isinstance(o, JSSharedArrayBuffer):
            e = o.buffer_id
        elif isinstance(o, JSArrayBufferTransfer):
            e = o.transfer_id
        elif isinstance(o, (JSTypedArray, JSDataView)):
            e = (str(o.view_tag), o.item_offset, o.item_length, o.readonly, ref(o.backing_buffer))
        elif isinstance(o, (bytes, bytearray, memoryview)):
            e = bytes(o)
        elif isinstance(o, JSPrimitiveObject):
            e = (str(o.tag), ref(o.value))
        elif isinstance(o, datetime):
            e = (o.isoformat(), o.fold)
        elif isinstance(o, re.Pattern):
            e = (o.pattern, o.flags)
        else:
            e = repr(o) if type(o).__repr__ is not object.__repr__ else ""
        out.append((id(o), type(o).__name__, e))
    return out
