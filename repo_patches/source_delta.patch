From e04260a15136e25ec8dfe88cd63de01284cec4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 01/69] fix: keep the current checkpoint when step() is called
 again at the same key

Calling step() twice at the same key (which is what a training loop does on
the first iteration after a restart) moved the only checkpoint into a
temporary directory and deleted it. Also record the new checkpoint before
removing the old one, so that an error while removing it does not make every
later step() fail.
---
 hyperstate/hyperstate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..f0abf15 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -136,10 +136,10 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            superseded, self._last_checkpoint = self._last_checkpoint, checkpoint_dir
+            if superseded is not None and superseded != checkpoint_dir:
                 with tempfile.TemporaryDirectory() as tmpdir:
-                    shutil.move(str(self._last_checkpoint), tmpdir)
-            self._last_checkpoint = checkpoint_dir
+                    shutil.move(str(superseded), tmpdir)
             # TODO: persistent checkpoints
 
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
-- 
2.43.0


From eadee5d180f5b32560b118d454f649014a0fc64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:24 +0000
Subject: [PATCH 02/69] fix: directories that are not automatic checkpoints
 must not hide the latest one

Any directory whose name ends in 12 digits (e.g. a manually saved
`best-step000000000009`) with a key larger than the latest checkpoint's made
StateManager ignore the checkpoint and silently start from scratch.
---
 hyperstate/hyperstate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index f0abf15..502a157 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -115,7 +115,7 @@ class StateManager(Generic[C, S]):
         if value is not None:
             value.mkdir(parents=True, exist_ok=True)
             checkpoint = find_latest_checkpoint(value)
-            if checkpoint is not None and checkpoint.name.startswith("latest"):
+            if checkpoint is not None:
                 self._last_checkpoint = checkpoint
         else:
             self._checkpoint_dir = None
@@ -338,7 +338,7 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.is_dir() and d.name.startswith("latest-") and len(d.name) >= 12:
             try:
                 if latest is None or int(d.name[-12:]) > latest:
                     latest = int(d.name[-12:])
-- 
2.43.0


From 787a2dc359b382b9cc61b37e708b05db394061d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 03/69] fix: schedules nested more than one level deep

Loading a schedule for a field like `a.b.c` raised KeyError('b').
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 502a157..9640e42 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -438,7 +438,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From 2a11b80ccc3e3a50d8b7c1df4d47d11ae8660b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 04/69] fix: schedules take their last value from the last
 point on

A schedule ending in a `step` segment never reached its last value, and one
that starts or ends with a jump (two points at the same position) raised
ZeroDivisionError there.
---
 hyperstate/schedule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..788ce3e 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -46,12 +46,12 @@ class PiecewiseFunction:
             if x < s.end:
                 break
         assert segment is not None
-        rescaled = (x - segment.start) / (segment.end - segment.start)
-        if rescaled < 0:
-            rescaled = 0
-        elif rescaled > 1:
-            rescaled = 1
+        if x <= segment.start:
+            return segment.initial_value
+        if x >= segment.end:
+            return segment.final_value
 
+        rescaled = (x - segment.start) / (segment.end - segment.start)
         w = segment.interpolator(rescaled)
         return w * segment.initial_value + (1 - w) * segment.final_value
 
-- 
2.43.0


From c680bababaa5b8a4c842473a12c7b3ecc9180629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 05/69] fix: schedules inside lists and dicts

They were registered under a path that is neither an attribute (so applying
them raised AttributeError) nor the path used when dumping (so checkpoints
recorded the current value instead of the schedule).
---
 hyperstate/hyperstate.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 9640e42..cd0a18f 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -221,7 +221,13 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None
             schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            _apply_schedules(state, getattr(config, field_name), schedule)
+            if isinstance(config, dict):
+                child = config[field_name]
+            elif isinstance(config, (list, tuple)):
+                child = config[int(field_name)]
+            else:
+                child = getattr(config, field_name)
+            _apply_schedules(state, child, schedule)
 
 
 def _typed_dump(
@@ -427,12 +433,19 @@ class ScheduleDeserializer(Deserializer):
     ) -> Tuple[Optional[T], bool, bool]:
         if (cls == int or cls == float) and isinstance(value, str) and "@" in value:
             schedule = _parse_schedule(value)
+            # Refer to list elements in the same way as `asdict` does.
+            path = path.replace("[", ".").replace("]", "")
             field_name = path.split(".")[-1]
 
             def update(self: T, state: Any) -> None:
                 x = getattr(state, schedule.xname)
                 value = schedule.get_value(x)
-                setattr(self, field_name, cls(value))  # type: ignore
+                if isinstance(self, dict):
+                    self[field_name] = cls(value)  # type: ignore
+                elif isinstance(self, list):
+                    self[int(field_name)] = cls(value)  # type: ignore
+                else:
+                    setattr(self, field_name, cls(value))  # type: ignore
 
             schedules = self.schedules
             for segment in path.split(".")[:-1]:
-- 
2.43.0


From 723dc0c095400294f5b2199a28d6d6162f3a3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 06/69] fix: dump enums by value, which is what loading expects

Enum members were written by name but are looked up by value (and schema
evolution treats renaming a variant as compatible and changing its value as
breaking), so any member whose name differs from its value could be dumped
and checkpointed but never loaded again.
---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..d81871b 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -122,7 +122,7 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From 3f28c9b024548f2eec6e669dc790a04ed5f4c085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 07/69] fix: loading literal types with non-string values

`Literal["x", 5]` could be dumped but not loaded: comparing it with
`Tuple[...]` raised a TypeError, as 5 is not a type. Also return the literal
itself rather than a merely equal value such as `5.0`.
---
 hyperstate/serde.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index d81871b..a89c13f 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -214,6 +214,15 @@ def from_dict(
             f"Expected {fpath} to be one of {clz.__args__}, got {value}"  # type: ignore
         )
 
+    elif typing.get_origin(clz) == Literal:
+        if isnamedtupleinstance(value) and len(value._fields) == 0:
+            value = value.__class__.__name__
+        args = typing.get_args(clz)
+        if value not in args:
+            raise DeserializeValueError(
+                f"{fpath} must be one of {args} but got '{value}'."
+            )
+        return args[args.index(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
         and len(clz.__args__) == 1  # type: ignore
@@ -283,15 +292,6 @@ def from_dict(
             raise DeserializeTypeError(f"Failed to initialize '{clz.__name__}': {e}")
     elif isinstance(clz, EnumMeta):
         return clz(value)
-    elif typing.get_origin(clz) == Literal:
-        if isnamedtupleinstance(value) and len(value._fields) == 0:
-            value = value.__class__.__name__
-        args = typing.get_args(clz)
-        if value not in args:
-            raise DeserializeValueError(
-                f"{fpath} must be one of {args} but got '{value}'."
-            )
-        return value  # type: ignore
     if isinstance(value, dict) and "!__name__" in value:
         fields = {k: v for k, v in value.items() if k != "!__name__"}
         value = namedtuple(value["!__name__"], fields.keys())(**fields)
-- 
2.43.0


From 14a8b51339c5b67342ca870a38115cc92b2da57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 08/69] fix: infinite and nan floats make dumped objects
 unloadable

`inf` was dumped as an identifier, which fails to load (`-inf` does not even
parse), so a checkpoint with e.g. `best_loss: inf` could not be restored.
---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index a89c13f..1aa6204 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -17,6 +17,7 @@ from typing import (
     Union,
 )
 import inspect
+import math
 from dataclasses import MISSING, is_dataclass
 import typing
 
@@ -123,6 +124,9 @@ def asdict(
         )
     elif isinstance(value, Enum):
         return value.value
+    elif named_tuples and isinstance(value, float) and not math.isfinite(value):
+        # RON has no literals for inf and nan, but floats can be loaded from strings.
+        return str(value)
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From 9b36c0474ab4f12978c54a2c0510322eda4e814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 09/69] fix: ignore extra fields at every depth when asked to

---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 1aa6204..5fb3b64 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -233,14 +233,14 @@ def from_dict(
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -250,7 +250,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -287,6 +287,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From 5125b7fd812afc4c5d9e13f95a604bf108ffb6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:24 +0000
Subject: [PATCH 10/69] fix: reject tuples of the wrong length

---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 5fb3b64..8e04a35 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -239,6 +239,10 @@ def from_dict(
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
+        if len(value) != len(clz.__args__):  # type: ignore
+            raise DeserializeTypeError(
+                f"Expected {fpath} to have {len(clz.__args__)} elements, got {value}"  # type: ignore
+            )
         return tuple(
             from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
-- 
2.43.0


From efdd428d19db980119454495af73844f238e8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 11/69] fix: bool overrides that are neither true nor false are
 errors

---
 hyperstate/hyperstate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index cd0a18f..c63c09f 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -404,6 +404,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise ValueError(
+                        f"Invalid override: {override}. Expected '{key}' to be a bool"
+                    )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-- 
2.43.0


From 7acfebe8670b3e68c0979fad6b00c1094e35d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:37 +0000
Subject: [PATCH 12/69] fix: use the value returned by upgrade rules

---
 hyperstate/schema/versioned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..6aad800 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -77,6 +77,7 @@ class VersionedDeserializer(Deserializer):
                     )
             else:
                 value = clz._apply_upgrades(state_dict=value, version=version)
+                return value, True, False
         return None, False, False
 
 
-- 
2.43.0


From 5f0b8229c53527b4dfa8406978d729ff209c5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 13/69] fix: apply overrides after upgrades of the config and
 its sections

---
 hyperstate/hyperstate.py | 52 ++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index c63c09f..254ce5a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -31,6 +31,7 @@ from hyperstate.serde import (
     Deserializer,
     Serializer,
     asdict,
+    isnamedtupleinstance,
 )
 import hyperstate.serde as serde
 from .lazy import Lazy, LazyDeserializer, LazySerializer
@@ -273,13 +274,14 @@ def _typed_load(
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
 ) -> Tuple[T, Dict[str, Any]]:
-    if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
     schedules = ScheduleDeserializer()
-    deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
+    deserializers: List[Deserializer] = [
+        schedules,
+        VersionedDeserializer(allow_missing_version),
+    ]
+    if overrides is not None:
+        # Overrides refer to the current version of the config, apply them after upgrades.
+        deserializers.append(OverridesDeserializer(overrides))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
@@ -357,7 +359,7 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
 @dataclass
 class OverridesDeserializer(Deserializer):
     overrides: List[str]
-    applied_overrides: bool = False
+    parsed_overrides: Optional[List[Tuple[List[str], Any]]] = None
 
     def deserialize(
         self,
@@ -365,10 +367,28 @@ class OverridesDeserializer(Deserializer):
         value: Any,
         path: str,
     ) -> Tuple[Optional[T], bool, bool]:
-        if self.applied_overrides:
-            return None, False, False
-
+        if self.parsed_overrides is None:
+            self.parsed_overrides = self._parse_overrides(cls)
+        # Set the overridden fields that are directly below `path`, and create
+        # the sections that contain other overridden fields.
+        prefix = path.split(".") if path else []
+        depth = len(prefix)
+        if isnamedtupleinstance(value):
+            value = value._asdict()  # type: ignore
+        applied = False
+        for fpath, val in self.parsed_overrides:
+            if len(fpath) <= depth or fpath[:depth] != prefix:
+                continue
+            if len(fpath) == depth + 1:
+                value[fpath[-1]] = val
+            elif value.get(fpath[depth]) is None:
+                value[fpath[depth]] = {}
+            applied = True
+        return (value, True, False) if applied else (None, False, False)
+
+    def _parse_overrides(self, cls: Type[Any]) -> List[Tuple[List[str], Any]]:
         schema = materialize_type(cls)
+        parsed: List[Tuple[List[str], Any]] = []
         errors = []
         assert isinstance(schema, Struct), f"{cls} is not a struct"
         for override in self.overrides:
@@ -410,18 +430,14 @@ class OverridesDeserializer(Deserializer):
                     )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
-            _value = value
-            for segment in fpath[:-1]:
-                if segment not in _value or _value[segment] is None:
-                    _value[segment] = {}
-                _value = _value[segment]
-            _value[fpath[-1]] = val
+            # Overriding a whole section supersedes earlier overrides inside of it.
+            parsed = [p for p in parsed if p[0][: len(fpath)] != fpath]
+            parsed.append((fpath, val))
         if len(errors) == 1:
             raise errors[0]
         elif len(errors) > 1:
             raise FieldsNotFoundError(errors)
-        self.applied_overrides = True
-        return value, True, False
+        return parsed
 
 
 class ScheduleDeserializer(Deserializer):
-- 
2.43.0


From 07f78d5b88a51e19211ededbf83c20c030164577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 14/69] fix: overriding a field of an omitted section keeps the
 defaults of the section

---
 hyperstate/hyperstate.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 254ce5a..4616b56 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -17,11 +17,12 @@ from typing import (
     Tuple,
     Union,
 )
-from dataclasses import MISSING, dataclass
+from dataclasses import MISSING, dataclass, is_dataclass
 import uuid
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
 
+from hyperstate.schema.rewrite_rule import WEAK_REF
 from hyperstate.schema.versioned import (
     Versioned,
     VersionedSerializer,
@@ -31,6 +32,7 @@ from hyperstate.serde import (
     Deserializer,
     Serializer,
     asdict,
+    is_optional,
     isnamedtupleinstance,
 )
 import hyperstate.serde as serde
@@ -381,8 +383,10 @@ class OverridesDeserializer(Deserializer):
                 continue
             if len(fpath) == depth + 1:
                 value[fpath[-1]] = val
-            elif value.get(fpath[depth]) is None:
-                value[fpath[depth]] = {}
+            else:
+                section = value.get(fpath[depth])
+                if section is None or (isinstance(section, dict) and WEAK_REF in section):
+                    value[fpath[depth]] = _new_section(cls, fpath[depth], section)
             applied = True
         return (value, True, False) if applied else (None, False, False)
 
@@ -440,6 +444,23 @@ class OverridesDeserializer(Deserializer):
         return parsed
 
 
+def _new_section(cls: Type[Any], field_name: str, weak_defaults: Any) -> Any:
+    """
+    Returns the section that an omitted dataclass field stands for.
+    """
+    field = cls.__dataclass_fields__[field_name]
+    default = field.default
+    if field.default_factory is not MISSING:
+        default = field.default_factory()
+    if is_dataclass(default):
+        return asdict(default, serializers=[VersionedSerializer()])
+    section = {k: v for k, v in (weak_defaults or {}).items() if k != WEAK_REF}
+    section_cls = field.type.__args__[0] if is_optional(field.type) else field.type
+    if issubclass(section_cls, Versioned):
+        section["version"] = section_cls.version()
+    return section
+
+
 class ScheduleDeserializer(Deserializer):
     def __init__(self) -> None:
         # Use recursive type once supported (https://github.com/python/mypy/issues/731): ScheduleDict = Union[Dict[str, "ScheduleDict"], Schedule]
-- 
2.43.0


From 026378d234f2d9bc96e732024012ab28347d390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 15/69] fix: old defaults are lost when an old config omits a
 whole section

---
 hyperstate/serde.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 8e04a35..973a081 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -327,27 +327,28 @@ def _try_create_defaults(
     still_missing = []
     for _field_name in remaining_fields:
         field = cls.__dataclass_fields__.get(_field_name)
-        if field.default is MISSING and field.default_factory is MISSING:
+        weak_ref = weak_refs.get(_field_name, MISSING)
+        if weak_ref is not MISSING and not (
+            isinstance(weak_ref, dict) and WEAK_REF in weak_ref
+        ):
+            kwargs[field.name] = from_dict(
+                field.type, weak_ref, fpath=f"{fpath}.{_field_name}"
+            )
+        elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
+                _fields = list(field.type.__dataclass_fields__)
                 _kwargs: Dict[str, Any] = {}
                 _weak_refs = weak_refs.get(_field_name, {})
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    _missing_defaults,
+                    _fields,
                     f"{fpath}.{_field_name}" if fpath else _field_name,
                     weak_refs=_weak_refs,
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
-        elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-            kwargs[field.name] = weak_refs[_field_name]
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
-- 
2.43.0


From d4426b8ce02af185728cc921082de1f7fe081059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 16/69] fix: rules on defaults of an omitted section must not
 bring the section into being

---
 hyperstate/schema/rewrite_rule.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..2c5df1a 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -25,9 +25,10 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        weak = _is_weak(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
         if ok:
-            _insert(state_dict, self.new_field, value)
+            _insert(state_dict, self.new_field, value, create_new=not weak)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -56,10 +57,11 @@ class MapFieldValue(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         path = self.field
+        weak = _is_weak(state_dict, path)
         value, present = _remove(state_dict, path)
         if present:
             new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            _insert(state_dict, path, new_value, create_new=not weak)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -94,7 +96,12 @@ class ChangeDefault(RewriteRule):
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(state_dict, self.field, self.old_default, create_new=False)
         else:
-            _insert(state_dict, self.field, existing_value)
+            _insert(
+                state_dict,
+                self.field,
+                existing_value,
+                create_new=not _is_weak(state_dict, self.field),
+            )
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -212,6 +219,19 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     return state_dict[path[-1]], True
 
 
+def _is_weak(state_dict: Any, path: Sequence[str]) -> bool:
+    """
+    Returns whether `path` lies in a section that is not actually part of the config.
+    """
+    for field in path[:-1]:
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            return False
+        state_dict = state_dict[field]
+        if isinstance(state_dict, dict) and WEAK_REF in state_dict:
+            return True
+    return False
+
+
 def _insert(
     state_dict: Any,
     path: Sequence[str],
-- 
2.43.0


From c8987ba74286fff6d0a32411238cc4397ff0000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 17/69] fix: RejectValues drops the values it accepts

---
 hyperstate/schema/rewrite_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 2c5df1a..0472959 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -166,7 +166,7 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
+        value, present = _get(state_dict, self.field)
         if present and value in self.disallowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
-- 
2.43.0


From 8efa15a8cf3260e1cb1fe7bfa642e2044db613d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 18/69] fix: value checks fail on fields of sections that are
 None

---
 hyperstate/schema/rewrite_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 0472959..5dea591 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -214,7 +214,9 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
         if field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+        if state_dict is None:
+            return None, False
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
-- 
2.43.0


From afebdcbe00bca06d0df9dd069a89ea186c33cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 19/69] fix: RejectValues cannot be applied to schemas

---
 hyperstate/schema/rewrite_rule.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 5dea591..d275330 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -176,23 +176,22 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
         _insert_schema(
             schema,
             self.field,
-            replace(
-                field,
-                type=types.Literal(
-                    [
-                        v
-                        for v in schema.allowed_values
-                        if v not in self.disallowed_values
-                    ]
-                ),
-            ),
+            replace(field, type=_reject_values(field.type, self.disallowed_values)),
         )
 
 
+def _reject_values(type: types.Type, disallowed_values: Set[Any]) -> types.Type:
+    if isinstance(type, types.Option):
+        return types.Option(_reject_values(type.type, disallowed_values))
+    assert isinstance(type, types.Literal), f"{type} is not a literal type"
+    return types.Literal(
+        [v for v in type.allowed_values if v not in disallowed_values]
+    )
+
+
 def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     assert len(path) > 0
     for field in path[:-1]:
-- 
2.43.0


From fcbfd7824f6924c051589d6558346795f512d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 20/69] fix: value checks on optional and list fields

---
 hyperstate/schema/rewrite_rule.py | 42 +++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index d275330..2865bcd 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -143,11 +143,11 @@ class CheckValue(RewriteRule):
     allowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _get(state_dict, self.field)
-        if present and value not in self.allowed_values:
-            raise ValueError(
-                f"Value {value.__repr__()} is deprecated for field {self.field}. Allowed values: [{', '.join(v.__repr__() for v in self.allowed_values)}]"
-            )
+        for value in _get_values(state_dict, self.field):
+            if value not in self.allowed_values:
+                raise ValueError(
+                    f"Value {value.__repr__()} is deprecated for field {self.field}. Allowed values: [{', '.join(v.__repr__() for v in self.allowed_values)}]"
+                )
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -156,21 +156,29 @@ class CheckValue(RewriteRule):
         _insert_schema(
             schema,
             self.field,
-            replace(field, type=types.Literal(list(self.allowed_values))),
+            replace(field, type=_check_values(field.type, self.allowed_values)),
         )
 
 
+def _check_values(type: types.Type, allowed_values: Set[Any]) -> types.Type:
+    if isinstance(type, types.Option):
+        return types.Option(_check_values(type.type, allowed_values))
+    if isinstance(type, types.List):
+        return types.List(_check_values(type.inner, allowed_values))
+    return types.Literal(list(allowed_values))
+
+
 @dataclass
 class RejectValues(RewriteRule):
     field: Sequence[str]
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _get(state_dict, self.field)
-        if present and value in self.disallowed_values:
-            raise ValueError(
-                f"Value {value.__repr__()} is deprecated for field {self.field}."
-            )
+        for value in _get_values(state_dict, self.field):
+            if value in self.disallowed_values:
+                raise ValueError(
+                    f"Value {value.__repr__()} is deprecated for field {self.field}."
+                )
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -186,6 +194,8 @@ class RejectValues(RewriteRule):
 def _reject_values(type: types.Type, disallowed_values: Set[Any]) -> types.Type:
     if isinstance(type, types.Option):
         return types.Option(_reject_values(type.type, disallowed_values))
+    if isinstance(type, types.List):
+        return types.List(_reject_values(type.inner, disallowed_values))
     assert isinstance(type, types.Literal), f"{type} is not a literal type"
     return types.Literal(
         [v for v in type.allowed_values if v not in disallowed_values]
@@ -220,6 +230,16 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     return state_dict[path[-1]], True
 
 
+def _get_values(state_dict: Any, path: Sequence[str]) -> List[Any]:
+    """
+    Returns the elements of a list field, and the value of any other field.
+    """
+    value, present = _get(state_dict, path)
+    if not present or value is None:
+        return []
+    return value if isinstance(value, list) else [value]
+
+
 def _is_weak(state_dict: Any, path: Sequence[str]) -> bool:
     """
     Returns whether `path` lies in a section that is not actually part of the config.
-- 
2.43.0


From 37d55ac2afd0bb0b91086c61c5fe812a7a224d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 21/69] fix: rules that map values of optional enums never
 satisfy the schema checker

---
 hyperstate/schema/rewrite_rule.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 2865bcd..6e2bc34 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -67,22 +67,21 @@ class MapFieldValue(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        if isinstance(field.type, types.Enum):
-            _insert_schema(
-                schema,
-                self.field,
-                replace(
-                    field,
-                    type=replace(
-                        field.type,
-                        variants={
-                            k: self.map_fn(v) for k, v in field.type.variants.items()
-                        },
-                    ),
-                ),
-            )
-        else:
-            _insert_schema(schema, self.field, field)
+        _insert_schema(
+            schema,
+            self.field,
+            replace(field, type=_map_variants(field.type, self.map_fn)),
+        )
+
+
+def _map_variants(type: types.Type, map_fn: Callable[[Any], Any]) -> types.Type:
+    if isinstance(type, types.Option):
+        return types.Option(_map_variants(type.type, map_fn))
+    if isinstance(type, types.Enum):
+        return replace(
+            type, variants={k: map_fn(v) for k, v in type.variants.items()}
+        )
+    return type
 
 
 @dataclass
-- 
2.43.0


From 1f88c70e85255f24c7828e985b765df7fb169c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 22/69] fix: leftover breakpoint when a type is not supported

---
 hyperstate/schema/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..af77d57 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -290,7 +290,6 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif typing.get_origin(clz) == typing.Literal:
         return Literal(list(typing.get_args(clz)))
     else:
-        breakpoint()
         raise ValueError(f"Unsupported type: {clz}")
 
 
-- 
2.43.0


From a0477d18a0d1f81826e240173c50a7f3013a693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 23/69] fix: schemas with tuples, dicts and unions cannot be
 loaded or checked

---
 hyperstate/schema/schema_checker.py | 22 ++++++++++++++++++++++
 hyperstate/schema/types.py          |  8 ++++++++
 2 files changed, 30 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..38c318f 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -177,6 +177,9 @@ class SchemaChecker:
         elif isinstance(old, t.Option):
             assert isinstance(new, t.Option)
             self._find_changes(old.type, new.type, path)
+        elif isinstance(old, (t.Tuple, t.Dict, t.Union)):
+            if self._has_changes(_type_args(old), _type_args(new)):
+                self.changes.append(TypeChanged(tuple(path), old, new))
         elif isinstance(old, t.Enum):
             assert isinstance(new, t.Enum)
             for name, value in new.variants.items():
@@ -226,6 +229,15 @@ class SchemaChecker:
         else:
             raise ValueError(f"Field {'.'.join(path)} has unsupported type {type(old)}")
 
+    def _has_changes(self, old: List[t.Type], new: List[t.Type]) -> bool:
+        if len(old) != len(new):
+            return True
+        changes, self.changes = self.changes, []
+        for old_type, new_type in zip(old, new):
+            self._find_changes(old_type, new_type, [])
+        changes, self.changes = self.changes, changes
+        return len(changes) > 0
+
     def _find_renames(
         self,
         cls_added: Type[TAdded],
@@ -332,6 +344,16 @@ class SchemaChecker:
                 )
 
 
+def _type_args(type: t.Type) -> List[t.Type]:
+    if isinstance(type, t.Tuple):
+        return list(type.inner)
+    elif isinstance(type, t.Dict):
+        return [type.key, type.val]
+    elif isinstance(type, t.Union):
+        return list(type.types)
+    return []
+
+
 def name_similarity(field1: str, field2: str) -> float:
     # Special cases
     # TODO: fold these into tweaked levenshtein with different costs for different edits
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index af77d57..c3b7ca1 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -308,6 +308,14 @@ def schema_from_namedtuple(schema: Any) -> Type:
         return Primitive(schema.type)
     elif clz_name == "List":
         return List(schema_from_namedtuple(schema.inner))
+    elif clz_name == "Tuple":
+        return Tuple([schema_from_namedtuple(inner) for inner in schema.inner])
+    elif clz_name == "Dict":
+        return Dict(
+            schema_from_namedtuple(schema.key), schema_from_namedtuple(schema.val)
+        )
+    elif clz_name == "Union":
+        return Union([schema_from_namedtuple(type) for type in schema.types])
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-- 
2.43.0


From 84d070da246326112a74b0b9c8f9c5e89234ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:57 +0000
Subject: [PATCH 24/69] fix: subtyping of optional and struct types is reversed

---
 hyperstate/schema/types.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index c3b7ca1..ba6b50a 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -203,11 +203,16 @@ class Struct:
     def is_subtype(self, other: Type) -> bool:
         return (
             isinstance(other, Struct)
+            and (self.version is None) == (other.version is None)
             and all(
                 k in other.fields
-                and other.fields[k].type.is_subtype(self.fields[k].type)
+                and self.fields[k].type.is_subtype(other.fields[k].type)
+                and self.fields[k].has_default == other.fields[k].has_default
+                and plain_default(self.fields[k].default)
+                == plain_default(other.fields[k].default)
                 for k in self.fields
             )
+            and all(k in self.fields or f.has_default for k, f in other.fields.items())
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
 
@@ -220,7 +225,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
@@ -232,6 +237,26 @@ class Nothing:
         return "Nothing"
 
 
+def plain_default(value: Any) -> Any:
+    """
+    Represents default values in the same way whether they come from a class or a schema file.
+    """
+    if isinstance(value, enum.Enum):
+        return value.value
+    elif is_dataclass(value):
+        return {
+            name: plain_default(getattr(value, name))
+            for name in value.__dataclass_fields__
+        }
+    elif isinstance(value, tuple) and hasattr(value, "_fields"):
+        return {name: plain_default(getattr(value, name)) for name in value._fields}  # type: ignore
+    elif isinstance(value, dict):
+        return {k: plain_default(v) for k, v in value.items()}
+    elif isinstance(value, (list, tuple)):
+        return type(value)(plain_default(v) for v in value)
+    return value
+
+
 def materialize_type(clz: typing.Type[Any]) -> Type:
     if clz == int:
         return Primitive(type="int")
-- 
2.43.0


From 97199aedfa6beae0e0a07ee62f408e65d0d77515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 25/69] fix: defaults that are dataclasses always count as
 changed

---
 hyperstate/schema/schema_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 38c318f..bd3ace0 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -150,7 +150,9 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and oldfield.default != field.default:
+                        elif oldfield.has_default and t.plain_default(
+                            oldfield.default
+                        ) != t.plain_default(field.default):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -279,7 +281,7 @@ class SchemaChecker:
             if (
                 removed.type.is_subtype(added.type)
                 and removed.has_default == added.has_default
-                and removed.default == added.default
+                and t.plain_default(removed.default) == t.plain_default(added.default)
             ):
                 return name_similarity(removed.field[-1], added.field[-1])
             return None
-- 
2.43.0


From 2091f3fa057ebdad2ccb5155173df6205b892c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 26/69] fix: schemas with enums inside of default values cannot
 be dumped

---
 hyperstate/schema/schema_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index bd3ace0..c70082f 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -4,7 +4,6 @@ from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
 
-import pyron
 import click
 
 from hyperstate.hyperstate import _typed_dump, _typed_load
@@ -25,6 +24,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
+from hyperstate.serde import dumps
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -399,7 +399,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    serialized = dumps(materialize_type(type))
     with open(filename, "w") as f:
         f.write(serialized)
 
-- 
2.43.0


From 58b613d02c80a3091d9eb3f42eab090e5f248527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 27/69] fix: AddDefault does not resolve the removal of a
 default

---
 hyperstate/schema/rewrite_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 6e2bc34..aceaead 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -132,7 +132,8 @@ class AddDefault(RewriteRule):
                 has_default=False,
             )
         else:
-            field = replace(field, default=self.default, has_default=True)
+            # The rule sets the value explicitly, so the class need not have a default.
+            field = replace(field, default=None, has_default=False)
         _insert_schema(schema, self.field, field)
 
 
-- 
2.43.0


From c713f8de22a685246879941e0a87286693158152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:01 +0000
Subject: [PATCH 28/69] fix: enum variants do not get renamed across different
 fields

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index c70082f..45e6641 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -295,6 +295,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if removed.field != added.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From 1d2076ac5f92d02901871185fb5b71aeebf17762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 29/69] fix: restored numpy arrays are read-only

---
 hyperstate/msgpack_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 1a9a8d8..2d5ddae 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -35,7 +35,7 @@ def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
             if obj[b"__tensor__"] == "torch" and torch is not None:
                 return torch.from_numpy(np.copy(tensor))
             else:
-                return tensor
+                return np.copy(tensor)
         else:
             return obj if chain is None else chain(obj)
     except KeyError:
-- 
2.43.0


From 802cdd64868c186072afd37288bfa33fd2cb84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 30/69] fix: upgrade-config returns before the upgraded file is
 written

---
 hyperstate/schema/schema_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 45e6641..2580c55 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -429,7 +429,8 @@ def _upgrade_config(
         config, elide_defaults=elide_defaults, schedules=schedules
     )
     if dry_run:
-        original_config = open(filename).read()
+        with open(filename) as f:
+            original_config = f.read()
         diff = difflib.unified_diff(
             original_config.splitlines(),
             upgraded_config.splitlines(),
@@ -444,7 +445,8 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        with open(filename, "w") as f:
+            f.write(upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From 08eabe756ea42e8b3e92c4c3bb155d8d0a552cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 31/69] fix: schemas with infinite default values cannot be
 loaded

---
 hyperstate/schema/types.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index ba6b50a..73da33c 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -344,12 +344,15 @@ def schema_from_namedtuple(schema: Any) -> Type:
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-            fields[name] = Field(
-                name,
-                schema_from_namedtuple(field.type),
-                field.default,
-                field.has_default,
-            )
+            type = schema_from_namedtuple(field.type)
+            default = field.default
+            if isinstance(default, str) and type in (
+                Primitive("float"),
+                Option(Primitive("float")),
+            ):
+                # infinities are stored as strings
+                default = float(default)
+            fields[name] = Field(name, type, default, field.has_default)
         return Struct(schema.name, fields, schema.version)
     elif clz_name == "Option":
         return Option(schema_from_namedtuple(schema.type))
-- 
2.43.0


From 5276b0ff922a2fa4647e35ca4006014c84816101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 32/69] fix: sections that lose all fields to upgrade rules
 make old configs unloadable

---
 hyperstate/schema/versioned.py | 46 +++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 6aad800..a0ba289 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -1,18 +1,22 @@
 from abc import ABC, abstractmethod
 from collections import namedtuple
-from dataclasses import dataclass
+from dataclasses import dataclass, is_dataclass
 from inspect import isclass
 from typing import Any, Dict, List, Optional, Type, TypeVar, Callable, Tuple
 from hyperstate.schema import namedtuple_utils, types
 from hyperstate.serde import (
     Deserializer,
     Serializer,
+    is_optional,
 )
 
 from hyperstate.schema.rewrite_rule import RewriteRule
 
 T = TypeVar("T")
 
+# Keys of a section that are not fields
+_ANNOTATIONS = {"!__name__", "version"}
+
 
 @dataclass  # type: ignore
 class Versioned(ABC):
@@ -39,9 +43,11 @@ class Versioned(ABC):
             assert (
                 v < clz.version()
             ), f"{clz.__name__}.upgrade_rules() keys must be less than {clz.__name__}.version()"
+        sections = _sections(state_dict)
         for i in range(version, clz.version()):
             for rule in clz.upgrade_rules().get(i, []):
                 state_dict = rule.apply(state_dict)
+        _remove_emptied_sections(clz, state_dict, sections)
         return state_dict
 
     @classmethod
@@ -51,6 +57,44 @@ class Versioned(ABC):
                 rule.apply_to_schema(schema)
 
 
+def _sections(state_dict: Any) -> Dict[str, Any]:
+    """
+    Returns the tree of all sections that have at least one field.
+    """
+    if not isinstance(state_dict, dict):
+        return {}
+    return {
+        k: _sections(v)
+        for k, v in state_dict.items()
+        if isinstance(v, dict) and len(v.keys() - _ANNOTATIONS) > 0
+    }
+
+
+def _remove_emptied_sections(
+    clz: Any, state_dict: Any, sections: Dict[str, Any]
+) -> None:
+    """
+    Removes all `sections` which have lost all their fields and are not part of `clz`.
+    """
+    if not isinstance(state_dict, dict):
+        return
+    fields = clz.__dataclass_fields__ if is_dataclass(clz) else {}
+    for name, children in sections.items():
+        section = state_dict.get(name)
+        if not isinstance(section, dict):
+            continue
+        if name in fields:
+            section_clz = fields[name].type
+            if is_optional(section_clz):
+                section_clz = section_clz.__args__[0]
+            if is_dataclass(section_clz):
+                _remove_emptied_sections(section_clz, section, children)
+        else:
+            _remove_emptied_sections(None, section, children)
+            if len(section.keys() - _ANNOTATIONS) == 0:
+                del state_dict[name]
+
+
 @dataclass
 class VersionedDeserializer(Deserializer):
     allow_missing_version: bool = False
-- 
2.43.0


From c6234b1108b8838b466f8d8de0d9aa6b70260448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 33/69] fix: proposed rename rules clobber the sections that
 other rules read

---
 hyperstate/schema/schema_checker.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 2580c55..dfa0ec5 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -51,11 +51,22 @@ class SchemaChecker:
         self._find_changes(old, self.new, [])
         self._find_field_renames()
         self._find_enum_variant_renames()
+        # Rules that write to a path must not get in the way of rules that still read below it.
+        self.changes.sort(key=self._replaces_section)
         for change in self.changes:
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
 
+    def _replaces_section(self, change: SchemaChange) -> bool:
+        if not isinstance(change, (FieldRenamed, FieldAdded)):
+            return False
+        target = change.new_name if isinstance(change, FieldRenamed) else change.field
+        return any(
+            len(c.field) > len(target) and c.field[: len(target)] == target
+            for c in self.changes
+        )
+
     def severity(self) -> Severity:
         max_severity = Severity.INFO
         for change in self.changes:
-- 
2.43.0


From 9ed75caab1feaf8dba3e53946bb87ee11300e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:07 +0000
Subject: [PATCH 34/69] fix: assigning a lazy field that has not been loaded is
 undone by the next access

---
 hyperstate/lazy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..680dda4 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -67,9 +67,14 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        unloaded = self.__dict__.get("_unloaded_lazy_fields")
+        if unloaded is not None:
+            unloaded.pop(name, None)
+        super(Lazy, self).__setattr__(name, value)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From 9ff5ef8090d5f5e80b57f512d3ed678d9a7cb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 35/69] fix: stored objects outside of lazy fields are restored
 as None

---
 hyperstate/hyperstate.py |  4 +-
 hyperstate/lazy.py       | 83 ++++++++++++++++++++++++++++++----------
 2 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 4616b56..ca763ef 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -182,6 +182,7 @@ class StateManager(Generic[C, S]):
             file=path / "state.ron",
             config=self.config,
             ignore_extra_fields=self.ignore_extra_fields,
+            deserialize_ctx=self._deserialize_ctx,
         )[0]
 
     def checkpoint(self, target_dir: str) -> None:
@@ -275,6 +276,7 @@ def _typed_load(
     config: Optional[Any] = None,
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
+    deserialize_ctx: Optional[Dict[str, Any]] = None,
 ) -> Tuple[T, Dict[str, Any]]:
     schedules = ScheduleDeserializer()
     deserializers: List[Deserializer] = [
@@ -303,7 +305,7 @@ def _typed_load(
             ignore_extra_fields=ignore_extra_fields,
         )
     if lazy is not None and len(lazy.lazy_fields) > 0:
-        value._unloaded_lazy_fields = lazy.lazy_fields  # type: ignore
+        lazy.attach(value, deserialize_ctx or {})
     return value, schedules.schedules
 
 
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 680dda4..6924dd1 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractclassmethod, abstractmethod
 import inspect
 import os
+import re
 from typing import (
     Any,
     Dict,
@@ -36,6 +37,32 @@ class Serializable(ABC, Generic[C, S]):
         pass
 
 
+def _load_blob(
+    ser_clz: Type[Serializable],
+    config: Any,
+    path: Path,
+    legacy_pickle: bool,
+    state: Any,
+    ctx: Dict[str, Any],
+) -> Any:
+    with open(path, "rb") as f:
+        if legacy_pickle:
+            if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
+                import pickle
+
+                state_dict = pickle.load(f)
+            else:
+                raise RuntimeError(
+                    "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
+                    "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
+                )
+        else:
+            state_dict = msgpack.unpack(
+                f, object_hook=msgpack_torch.decode, strict_map_key=False
+            )
+    return ser_clz.deserialize(state_dict, config, state, ctx)
+
+
 class Lazy:
     def __getattribute__(self, name: str) -> Any:
         try:
@@ -43,26 +70,9 @@ class Lazy:
         except AttributeError:
             unloaded = None
         if unloaded is not None and name in unloaded:
-            ser_clz, config, path, legacy_pickle = unloaded[name]
-            with open(path, "rb") as f:
-                if legacy_pickle:
-                    if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
-                        import pickle
-
-                        state_dict = pickle.load(f)
-                    else:
-                        raise RuntimeError(
-                            "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
-                            "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
-                        )
-                else:
-                    state_dict = msgpack.unpack(
-                        f, object_hook=msgpack_torch.decode, strict_map_key=False
-                    )
             # TODO: recursion check
-            value = ser_clz.deserialize(
-                state_dict,
-                config,
+            value = _load_blob(
+                *unloaded[name],
                 self,
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
@@ -114,8 +124,9 @@ class LazyDeserializer(Deserializer, Generic[C]):
                     "state." + path.replace("[", "_").replace("]", "") + ".pickle"
                 )
             else:
+                # Refer to list elements in the same way as `asdict` does.
                 filepath = (
-                    "state." + path.replace("[", "_").replace("]", "") + ".msgpack"
+                    "state." + path.replace("[", ".").replace("]", "") + ".msgpack"
                 )
             self.lazy_fields[path] = (
                 cls,
@@ -126,6 +137,38 @@ class LazyDeserializer(Deserializer, Generic[C]):
             return None, True, True
         return None, False, False
 
+    def attach(self, state: Any, ctx: Dict[str, Any]) -> None:
+        """
+        Sets up lazy loading of the fields of `state` that support it, and loads all other fields.
+        """
+        lazy_fields = {}
+        eager_fields = {}
+        for path, field in self.lazy_fields.items():
+            is_lazy = isinstance(state, Lazy) and not re.search(r"[.\[]", path)
+            (lazy_fields if is_lazy else eager_fields)[path] = field
+        if len(lazy_fields) > 0:
+            state._unloaded_lazy_fields = lazy_fields
+        for path, field in eager_fields.items():
+            *parents, name = path.replace("[", ".").replace("]", "").split(".")
+            owner = state
+            for segment in parents:
+                owner = _get_item(owner, segment)
+            value = _load_blob(*field, state, ctx)
+            if isinstance(owner, list):
+                owner[int(name)] = value
+            elif isinstance(owner, dict):
+                owner[name] = value
+            else:
+                setattr(owner, name, value)
+
+
+def _get_item(owner: Any, name: str) -> Any:
+    if isinstance(owner, (list, tuple)):
+        return owner[int(name)]
+    elif isinstance(owner, dict):
+        return owner[name]
+    return getattr(owner, name)
+
 
 @dataclass
 class LazySerializer(Serializer):
-- 
2.43.0


From 23b71754eb3058f0e4295a51cd482bcdfc5fad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:52 +0000
Subject: [PATCH 36/69] fix: large integers given as strings lose precision

---
 hyperstate/serde.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 973a081..de9be25 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -188,6 +188,11 @@ def from_dict(
     elif (clz == float or ufloat) and isinstance(value, str):
         return float(value)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
+        try:
+            # avoid going through float, which cannot represent large integers
+            return int(value)  # type: ignore
+        except ValueError:
+            pass
         f = float(value)
         if int(f) == f:
             return int(f)  # type: ignore
-- 
2.43.0


From 25287bff0ed06e08d7ec92372d1e3ed614d98db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 37/69] fix: huge integers and tiny floats make dumped objects
 unloadable or inexact

---
 hyperstate/serde.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index de9be25..e86aff3 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -127,6 +127,12 @@ def asdict(
     elif named_tuples and isinstance(value, float) and not math.isfinite(value):
         # RON has no literals for inf and nan, but floats can be loaded from strings.
         return str(value)
+    elif named_tuples and isinstance(value, float) and 0 < abs(value) < 1e-290:
+        # Not read back correctly.
+        return str(value)
+    elif named_tuples and isinstance(value, int) and not -(2**63) <= value < 2**63:
+        # Does not fit into a RON integer, but integers can be loaded from strings.
+        return str(value)
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From ef6d85e6af7a90243dcb94f752ae29bbc4adc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:55 +0000
Subject: [PATCH 38/69] fix: strings with apostrophes or control characters
 make dumped objects unloadable

---
 hyperstate/serde.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index e86aff3..5eb571f 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -18,6 +18,7 @@ from typing import (
 )
 import inspect
 import math
+import re
 from dataclasses import MISSING, is_dataclass
 import typing
 
@@ -423,7 +424,18 @@ def dumps(
     if serializers is None:
         serializers = []
     state_dict = asdict(obj, named_tuples=True, serializers=serializers)
-    return pyron.to_string(state_dict)
+    return _ESCAPE.sub(_unescape, pyron.to_string(state_dict))
+
+
+# pyron escapes some characters in a way that it does not accept when loading.
+_ESCAPE = re.compile(r"\\(?:u\{([0-9a-f]+)\}|(.))", re.DOTALL)
+
+
+def _unescape(match: Any) -> str:
+    codepoint, char = match.groups()
+    if codepoint is not None:
+        return chr(int(codepoint, 16))
+    return "'" if char == "'" else match.group(0)  # type: ignore
 
 
 def is_optional(clz: Type[Any]) -> bool:
-- 
2.43.0


From f198e5391839157c13ff3d080358327a171fa45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 39/69] fix: AddDefault has no effect on a section with other
 changed defaults

---
 hyperstate/schema/rewrite_rule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index aceaead..a49f06e 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -117,6 +117,8 @@ class AddDefault(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         value, present = _remove(state_dict, self.field)
+        if isinstance(value, dict) and WEAK_REF in value:
+            present = False
         _insert(
             state_dict, self.field, value if present else self.default, create_new=False
         )
-- 
2.43.0


From 5f5950926d81551922c0c3165eab5c7bace7d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 40/69] fix: versioned sections cannot be overridden with a
 struct

---
 hyperstate/schema/namedtuple_utils.py | 20 ++++++++++++++------
 hyperstate/schema/versioned.py        |  4 ++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/hyperstate/schema/namedtuple_utils.py b/hyperstate/schema/namedtuple_utils.py
index 205495f..5f9f73e 100644
--- a/hyperstate/schema/namedtuple_utils.py
+++ b/hyperstate/schema/namedtuple_utils.py
@@ -1,9 +1,17 @@
-from collections import namedtuple
 from typing import Any
 
+from hyperstate.serde import isnamedtupleinstance
 
-def remove_field(value: Any, field: str) -> Any:
-    value = namedtuple(
-        value.__class__.__name__,
-        [f for f in value._fields if f is not field],
-    )(*[getattr(value, f) for f in value._fields if f is not field])
+
+def to_dict(value: Any) -> Any:
+    """
+    Recursively converts structs to the same form as when loading with `preserve_class_names`.
+    """
+    if isnamedtupleinstance(value) and len(value._fields) > 0:
+        return {
+            "!__name__": value.__class__.__name__,
+            **{k: to_dict(v) for k, v in value._asdict().items()},
+        }
+    elif isinstance(value, dict):
+        return {k: to_dict(v) for k, v in value.items()}
+    return value
diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index a0ba289..6a789d1 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -109,8 +109,8 @@ class VersionedDeserializer(Deserializer):
             if isinstance(value, dict):
                 version = value.pop("version", None)
             elif hasattr(value, "version"):
-                version = value.version
-                value = namedtuple_utils.remove_field(value, "version")
+                value = namedtuple_utils.to_dict(value)
+                version = value.pop("version", None)
             else:
                 version = None
 
-- 
2.43.0


From ef8187d8d8514c42e2ff68b0fedc44a479e1c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 41/69] fix: fields with several possible dataclasses cannot be
 overridden

---
 hyperstate/serde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 5eb571f..4f24e6b 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -206,6 +206,8 @@ def from_dict(
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
+        if isnamedtupleinstance(value):
+            value = {"!__name__": value.__class__.__name__, **value._asdict()}
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-- 
2.43.0


From aab7a52f62c02fe68b55eda53ee146e8fed8e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 42/69] fix: overrides inside omitted sections fail if the
 default has a field with several possible dataclasses

---
 hyperstate/hyperstate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index ca763ef..ef1b3e1 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -455,7 +455,9 @@ def _new_section(cls: Type[Any], field_name: str, weak_defaults: Any) -> Any:
     if field.default_factory is not MISSING:
         default = field.default_factory()
     if is_dataclass(default):
-        return asdict(default, serializers=[VersionedSerializer()])
+        return asdict(
+            default, named_tuples=True, serializers=[VersionedSerializer()]
+        )
     section = {k: v for k, v in (weak_defaults or {}).items() if k != WEAK_REF}
     section_cls = field.type.__args__[0] if is_optional(field.type) else field.type
     if issubclass(section_cls, Versioned):
-- 
2.43.0


From 86be4d9b4cde456acfb97cce38bccb680be3aa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:33 +0000
Subject: [PATCH 43/69] fix: schedule that ends with a jump has its last value
 from the last point on

---
 hyperstate/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 788ce3e..251c569 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -46,10 +46,10 @@ class PiecewiseFunction:
             if x < s.end:
                 break
         assert segment is not None
-        if x <= segment.start:
-            return segment.initial_value
         if x >= segment.end:
             return segment.final_value
+        if x <= segment.start:
+            return segment.initial_value
 
         rescaled = (x - segment.start) / (segment.end - segment.start)
         w = segment.interpolator(rescaled)
-- 
2.43.0


From 66f6d1986706f1e98a52885147ccf816d5ee89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:35 +0000
Subject: [PATCH 44/69] fix: accept schedules that consist of a single point

---
 hyperstate/schedule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 251c569..d476303 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -92,4 +92,7 @@ def _parse_schedule(schedule: str) -> PiecewiseFunction:
             last_x, last_y = x, y
         else:
             interpolator = INTERPOLATORS[part]
+    if len(segments) == 0 and last_x is not None:
+        # A single point
+        segments.append(ScheduleSegment(last_x, last_x, last_y, last_y, interpolator))
     return PiecewiseFunction(segments, xname)
-- 
2.43.0


From 85ec2b08c02e022738f0d7ee26ccbc84bc407ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:38 +0000
Subject: [PATCH 45/69] fix: stored objects inside of tuples are restored

---
 hyperstate/lazy.py  | 23 +++--------------------
 hyperstate/serde.py | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 6924dd1..71a788c 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -15,7 +15,7 @@ from dataclasses import dataclass, field
 from pathlib import Path
 import msgpack
 
-from hyperstate.serde import Serializer, Deserializer
+from hyperstate.serde import Serializer, Deserializer, set_nested
 from hyperstate import msgpack_torch
 
 
@@ -149,25 +149,8 @@ class LazyDeserializer(Deserializer, Generic[C]):
         if len(lazy_fields) > 0:
             state._unloaded_lazy_fields = lazy_fields
         for path, field in eager_fields.items():
-            *parents, name = path.replace("[", ".").replace("]", "").split(".")
-            owner = state
-            for segment in parents:
-                owner = _get_item(owner, segment)
-            value = _load_blob(*field, state, ctx)
-            if isinstance(owner, list):
-                owner[int(name)] = value
-            elif isinstance(owner, dict):
-                owner[name] = value
-            else:
-                setattr(owner, name, value)
-
-
-def _get_item(owner: Any, name: str) -> Any:
-    if isinstance(owner, (list, tuple)):
-        return owner[int(name)]
-    elif isinstance(owner, dict):
-        return owner[name]
-    return getattr(owner, name)
+            segments = path.replace("[", ".").replace("]", "").split(".")
+            set_nested(state, segments, _load_blob(*field, state, ctx))
 
 
 @dataclass
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 4f24e6b..425033e 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -440,6 +440,44 @@ def _unescape(match: Any) -> str:
     return "'" if char == "'" else match.group(0)  # type: ignore
 
 
+def get_item(owner: Any, name: str) -> Any:
+    """
+    Returns the element of `owner` that a path segment refers to.
+    """
+    if isinstance(owner, (list, tuple)):
+        return owner[int(name)]
+    elif isinstance(owner, dict):
+        return owner[name]
+    return getattr(owner, name)
+
+
+def set_item(owner: Any, name: str, value: Any) -> Any:
+    """
+    Sets the element of `owner` that a path segment refers to.
+    Returns `owner`, or its replacement if it is a tuple.
+    """
+    if isinstance(owner, tuple):
+        i = int(name)
+        return owner[:i] + (value,) + owner[i + 1 :]
+    elif isinstance(owner, list):
+        owner[int(name)] = value
+    elif isinstance(owner, dict):
+        owner[name] = value
+    else:
+        setattr(owner, name, value)
+    return owner
+
+
+def set_nested(owner: Any, path: List[str], value: Any) -> Any:
+    name, *rest = path
+    if rest:
+        child = get_item(owner, name)
+        value = set_nested(child, rest, value)
+        if value is child:
+            return owner
+    return set_item(owner, name, value)
+
+
 def is_optional(clz: Type[Any]) -> bool:
     return (
         hasattr(clz, "__origin__")
-- 
2.43.0


From 7c99c5299e23772966739c156cfc0d6bc664508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 46/69] fix: schedules inside of tuples

---
 hyperstate/hyperstate.py | 30 ++++++++++++++----------------
 hyperstate/schedule.py   |  2 +-
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index ef1b3e1..a87e16f 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -32,8 +32,10 @@ from hyperstate.serde import (
     Deserializer,
     Serializer,
     asdict,
+    get_item,
     is_optional,
     isnamedtupleinstance,
+    set_item,
 )
 import hyperstate.serde as serde
 from .lazy import Lazy, LazyDeserializer, LazySerializer
@@ -219,19 +221,20 @@ class FieldsNotFoundError(Exception):
         self.not_found_errors = not_found_errors
 
 
-def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None:
+def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> Any:
+    """
+    Updates scheduled values in `config`. Returns `config`, or its replacement if it is a tuple.
+    """
     for field_name, schedule in schedules.items():
         if isinstance(schedule, Schedule):
-            schedule.update_value(config, state)
+            config = schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            if isinstance(config, dict):
-                child = config[field_name]
-            elif isinstance(config, (list, tuple)):
-                child = config[int(field_name)]
-            else:
-                child = getattr(config, field_name)
-            _apply_schedules(state, child, schedule)
+            child = get_item(config, field_name)
+            updated = _apply_schedules(state, child, schedule)
+            if updated is not child:
+                config = set_item(config, field_name, updated)
+    return config
 
 
 def _typed_dump(
@@ -482,15 +485,10 @@ class ScheduleDeserializer(Deserializer):
             path = path.replace("[", ".").replace("]", "")
             field_name = path.split(".")[-1]
 
-            def update(self: T, state: Any) -> None:
+            def update(self: T, state: Any) -> T:
                 x = getattr(state, schedule.xname)
                 value = schedule.get_value(x)
-                if isinstance(self, dict):
-                    self[field_name] = cls(value)  # type: ignore
-                elif isinstance(self, list):
-                    self[int(field_name)] = cls(value)  # type: ignore
-                else:
-                    setattr(self, field_name, cls(value))  # type: ignore
+                return set_item(self, field_name, cls(value))  # type: ignore
 
             schedules = self.schedules
             for segment in path.split(".")[:-1]:
diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index d476303..7c449ba 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -21,7 +21,7 @@ INTERPOLATORS = {
 
 @dataclass
 class Schedule:
-    update_value: Callable[[Any, Any], None]
+    update_value: Callable[[Any, Any], Any]
     unparsed: str
 
 
-- 
2.43.0


From 8af9e296df38106599ac20776679a89f47a9dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 47/69] fix: schedules and stored objects below dictionary keys
 with special characters

---
 hyperstate/serde.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 425033e..a90c2bd 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -99,7 +99,7 @@ def asdict(
                 value=v,
                 named_tuples=named_tuples,
                 serializers=serializers,
-                file=k if file == "" else f"{file}.{k}",
+                file=escape(k) if file == "" else f"{file}.{escape(k)}",
             )
             for k, v in value.items()
         }
@@ -268,7 +268,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{escape(k)}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -440,6 +440,19 @@ def _unescape(match: Any) -> str:
     return "'" if char == "'" else match.group(0)  # type: ignore
 
 
+def escape(key: Any) -> str:
+    """
+    Escapes a dictionary key, so that it is a single segment of a path (of fields or of a file).
+    """
+    return re.sub(
+        r"[./\\\[\]\0]|%(?=[0-9a-f]{2})", lambda m: f"%{ord(m[0]):02x}", str(key)
+    )
+
+
+def unescape(segment: str) -> str:
+    return re.sub(r"%([0-9a-f]{2})", lambda m: chr(int(m[1], 16)), segment)
+
+
 def get_item(owner: Any, name: str) -> Any:
     """
     Returns the element of `owner` that a path segment refers to.
@@ -447,7 +460,7 @@ def get_item(owner: Any, name: str) -> Any:
     if isinstance(owner, (list, tuple)):
         return owner[int(name)]
     elif isinstance(owner, dict):
-        return owner[name]
+        return owner[unescape(name)]
     return getattr(owner, name)
 
 
@@ -462,7 +475,7 @@ def set_item(owner: Any, name: str, value: Any) -> Any:
     elif isinstance(owner, list):
         owner[int(name)] = value
     elif isinstance(owner, dict):
-        owner[name] = value
+        owner[unescape(name)] = value
     else:
         setattr(owner, name, value)
     return owner
-- 
2.43.0


From f110601b63f900f67c1d62940bfa80be84c54d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 48/69] fix: numbers without RON literal inside of container
 defaults in schema files

---
 hyperstate/schema/types.py | 40 +++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 73da33c..f234440 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -345,13 +345,7 @@ def schema_from_namedtuple(schema: Any) -> Type:
         fields = {}
         for name, field in schema.fields.items():
             type = schema_from_namedtuple(field.type)
-            default = field.default
-            if isinstance(default, str) and type in (
-                Primitive("float"),
-                Option(Primitive("float")),
-            ):
-                # infinities are stored as strings
-                default = float(default)
+            default = _restore_numbers(type, field.default)
             fields[name] = Field(name, type, default, field.has_default)
         return Struct(schema.name, fields, schema.version)
     elif clz_name == "Option":
@@ -367,6 +361,38 @@ def schema_from_namedtuple(schema: Any) -> Type:
         raise ValueError(f"Unsupported type: {clz_name}")
 
 
+def _restore_numbers(type: Type, value: Any) -> Any:
+    """
+    Converts numbers that are stored as strings because they have no RON literal.
+    """
+    if isinstance(type, Option):
+        return _restore_numbers(type.type, value)
+    elif isinstance(type, Primitive) and isinstance(value, str):
+        if type.type == "float":
+            return float(value)
+        elif type.type == "int":
+            return int(value)
+    elif isinstance(type, List) and isinstance(value, list):
+        return [_restore_numbers(type.inner, v) for v in value]
+    elif isinstance(type, Dict) and isinstance(value, dict):
+        return {k: _restore_numbers(type.val, v) for k, v in value.items()}
+    elif isinstance(type, Tuple) and isinstance(value, tuple):
+        return tuple(_restore_numbers(t, v) for t, v in zip(type.inner, value))
+    elif isinstance(type, Struct) and hasattr(value, "_fields"):
+        return value._replace(
+            **{
+                name: _restore_numbers(field.type, getattr(value, name))
+                for name, field in type.fields.items()
+                if name in value._fields
+            }
+        )
+    elif isinstance(type, Union) and hasattr(value, "_fields"):
+        for member in type.types:
+            if isinstance(member, Struct) and member.name == value.__class__.__name__:
+                return _restore_numbers(member, value)
+    return value
+
+
 def load_schema(path: str) -> Struct:
     schema = pyron.load(path, preserve_structs=True)
     result = schema_from_namedtuple(schema)
-- 
2.43.0


From 03ec1c6c5561bca998df09ee86836aafd3a48b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 49/69] fix: section that becomes versioned or unversioned
 reported as incompatible

---
 hyperstate/schema/schema_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index dfa0ec5..3082b9b 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -113,6 +113,9 @@ class SchemaChecker:
             self._find_changes(old.inner, new.inner, path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
+            if path and (old.version is None) != (new.version is None):
+                # Configs have to state the version of versioned classes, and of no others.
+                self.changes.append(TypeChanged(tuple(path), old, new))
             for name, field in new.fields.items():
                 if name not in old.fields:
                     if isinstance(field.type, t.Struct):
-- 
2.43.0


From b42ec6a20a511eabcaf4cdc54515f81787472517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:10 +0000
Subject: [PATCH 50/69] fix: versioned class in a container that becomes
 unversioned reported as incompatible

---
 hyperstate/schema/schema_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 3082b9b..4c86f0e 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -113,7 +113,7 @@ class SchemaChecker:
             self._find_changes(old.inner, new.inner, path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
-            if path and (old.version is None) != (new.version is None):
+            if (old.version is None) != (new.version is None):
                 # Configs have to state the version of versioned classes, and of no others.
                 self.changes.append(TypeChanged(tuple(path), old, new))
             for name, field in new.fields.items():
-- 
2.43.0


From c742669b3b1c48c54e37c628827422dce3004d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:25 +0000
Subject: [PATCH 51/69] fix: upgrading a config modifies the defaults of its
 upgrade rules

---
 hyperstate/schema/rewrite_rule.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index a49f06e..c66fbf5 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from dataclasses import dataclass, replace
 from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
 from venv import create
@@ -93,7 +94,9 @@ class ChangeDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
-            _insert(state_dict, self.field, self.old_default, create_new=False)
+            _insert(
+                state_dict, self.field, deepcopy(self.old_default), create_new=False
+            )
         else:
             _insert(
                 state_dict,
@@ -120,7 +123,10 @@ class AddDefault(RewriteRule):
         if isinstance(value, dict) and WEAK_REF in value:
             present = False
         _insert(
-            state_dict, self.field, value if present else self.default, create_new=False
+            state_dict,
+            self.field,
+            value if present else deepcopy(self.default),
+            create_new=False,
         )
         return state_dict
 
-- 
2.43.0


From 1dd58908e4737652e412421df9f3427d6421bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:29 +0000
Subject: [PATCH 52/69] fix: upgrade rule that moves a field into an omitted
 versioned section makes the config invalid

---
 hyperstate/schema/versioned.py | 70 +++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 6a789d1..69c0580 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -10,7 +10,7 @@ from hyperstate.serde import (
     is_optional,
 )
 
-from hyperstate.schema.rewrite_rule import RewriteRule
+from hyperstate.schema.rewrite_rule import WEAK_REF, RewriteRule
 
 T = TypeVar("T")
 
@@ -48,6 +48,7 @@ class Versioned(ABC):
             for rule in clz.upgrade_rules().get(i, []):
                 state_dict = rule.apply(state_dict)
         _remove_emptied_sections(clz, state_dict, sections)
+        _set_version_of_new_sections(clz, state_dict, sections)
         return state_dict
 
     @classmethod
@@ -57,21 +58,64 @@ class Versioned(ABC):
                 rule.apply_to_schema(schema)
 
 
-def _sections(state_dict: Any) -> Dict[str, Any]:
+@dataclass
+class _Section:
+    has_fields: bool
+    children: Dict[str, "_Section"]
+
+
+def _sections(state_dict: Any) -> Dict[str, _Section]:
     """
-    Returns the tree of all sections that have at least one field.
+    Returns the tree of all sections.
     """
     if not isinstance(state_dict, dict):
         return {}
     return {
-        k: _sections(v)
+        k: _Section(len(v.keys() - _ANNOTATIONS) > 0, _sections(v))
         for k, v in state_dict.items()
-        if isinstance(v, dict) and len(v.keys() - _ANNOTATIONS) > 0
+        if isinstance(v, dict)
     }
 
 
+def _section_clz(clz: Any, name: str) -> Any:
+    """
+    Returns the dataclass of the section `name` of `clz`, if there is one.
+    """
+    field = clz.__dataclass_fields__.get(name)
+    if field is None:
+        return None
+    section_clz = field.type
+    if is_optional(section_clz):
+        section_clz = section_clz.__args__[0]
+    return section_clz if is_dataclass(section_clz) else None
+
+
+def _set_version_of_new_sections(
+    clz: Any, state_dict: Any, sections: Dict[str, _Section]
+) -> None:
+    """
+    Sections that were created by upgrade rules are of the current version.
+    """
+    if not isinstance(state_dict, dict):
+        return
+    for name, section in state_dict.items():
+        section_clz = _section_clz(clz, name)
+        if (
+            section_clz is None
+            or not isinstance(section, dict)
+            or WEAK_REF in section
+        ):
+            continue
+        old = sections.get(name)
+        if old is None and issubclass(section_clz, Versioned):
+            section.setdefault("version", section_clz.version())
+        _set_version_of_new_sections(
+            section_clz, section, {} if old is None else old.children
+        )
+
+
 def _remove_emptied_sections(
-    clz: Any, state_dict: Any, sections: Dict[str, Any]
+    clz: Any, state_dict: Any, sections: Dict[str, _Section]
 ) -> None:
     """
     Removes all `sections` which have lost all their fields and are not part of `clz`.
@@ -79,18 +123,16 @@ def _remove_emptied_sections(
     if not isinstance(state_dict, dict):
         return
     fields = clz.__dataclass_fields__ if is_dataclass(clz) else {}
-    for name, children in sections.items():
+    for name, old in sections.items():
         section = state_dict.get(name)
-        if not isinstance(section, dict):
+        if not old.has_fields or not isinstance(section, dict):
             continue
         if name in fields:
-            section_clz = fields[name].type
-            if is_optional(section_clz):
-                section_clz = section_clz.__args__[0]
-            if is_dataclass(section_clz):
-                _remove_emptied_sections(section_clz, section, children)
+            section_clz = _section_clz(clz, name)
+            if section_clz is not None:
+                _remove_emptied_sections(section_clz, section, old.children)
         else:
-            _remove_emptied_sections(None, section, children)
+            _remove_emptied_sections(None, section, old.children)
             if len(section.keys() - _ANNOTATIONS) == 0:
                 del state_dict[name]
 
-- 
2.43.0


From 1ac89df648b2e27f638306eb1bcca8e6f35321af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:30 +0000
Subject: [PATCH 53/69] fix: versioned section created by upgrade rules
 reported as incompatible

---
 hyperstate/schema/schema_checker.py | 5 +++--
 hyperstate/schema/types.py          | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 4c86f0e..e1b4cd8 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -113,8 +113,9 @@ class SchemaChecker:
             self._find_changes(old.inner, new.inner, path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
-            if (old.version is None) != (new.version is None):
-                # Configs have to state the version of versioned classes, and of no others.
+            if old.name and (old.version is None) != (new.version is None):
+                # Configs have to state the version of versioned classes, and of no others
+                # (sections that upgrade rules create, which have no name, get a version).
                 self.changes.append(TypeChanged(tuple(path), old, new))
             for name, field in new.fields.items():
                 if name not in old.fields:
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index f234440..0d49301 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -203,7 +203,9 @@ class Struct:
     def is_subtype(self, other: Type) -> bool:
         return (
             isinstance(other, Struct)
-            and (self.version is None) == (other.version is None)
+            and (
+                self.name == "" or (self.version is None) == (other.version is None)
+            )
             and all(
                 k in other.fields
                 and self.fields[k].type.is_subtype(other.fields[k].type)
-- 
2.43.0


From 7ed6041f5a2504caef2f8aadaec4768c55fca160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:55 +0000
Subject: [PATCH 54/69] fix: proposed rules do not apply to previous default
 values

---
 hyperstate/schema/schema_checker.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index e1b4cd8..3015fd1 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -23,6 +23,7 @@ from hyperstate.schema.schema_change import (
     Severity,
     TypeChanged,
 )
+from hyperstate.schema.rewrite_rule import MapFieldValue
 from hyperstate.schema.versioned import Versioned
 from hyperstate.serde import dumps
 from .types import load_schema, materialize_type
@@ -52,7 +53,13 @@ class SchemaChecker:
         self._find_field_renames()
         self._find_enum_variant_renames()
         # Rules that write to a path must not get in the way of rules that still read below it.
-        self.changes.sort(key=self._replaces_section)
+        # Previous defaults are restored before rules apply to the values that they consist of.
+        self.changes = sorted(
+            self.changes,
+            key=lambda change: (
+                -1 if self._restores_values(change) else self._replaces_section(change)
+            ),
+        )
         for change in self.changes:
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
@@ -67,6 +74,18 @@ class SchemaChecker:
             for c in self.changes
         )
 
+    def _restores_values(self, change: SchemaChange) -> bool:
+        if not isinstance(change, (DefaultValueChanged, DefaultValueRemoved)):
+            return False
+        return any(
+            len(c.field) > len(change.field)
+            and c.field[: len(change.field)] == change.field
+            and not isinstance(c, (DefaultValueChanged, DefaultValueRemoved))
+            or c.field == change.field
+            and isinstance(c.proposed_fix(), MapFieldValue)
+            for c in self.changes
+        )
+
     def severity(self) -> Severity:
         max_severity = Severity.INFO
         for change in self.changes:
-- 
2.43.0


From 21e5aa9e44a9519103d7b20cc5f82087af210735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:24 +0000
Subject: [PATCH 55/69] fix: upgrade rules have no access to the inside of
 default values

---
 hyperstate/schema/namedtuple_utils.py | 10 +++++++---
 hyperstate/schema/rewrite_rule.py     |  8 ++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/namedtuple_utils.py b/hyperstate/schema/namedtuple_utils.py
index 5f9f73e..4593586 100644
--- a/hyperstate/schema/namedtuple_utils.py
+++ b/hyperstate/schema/namedtuple_utils.py
@@ -1,17 +1,21 @@
+from dataclasses import is_dataclass
 from typing import Any
 
-from hyperstate.serde import isnamedtupleinstance
-
 
 def to_dict(value: Any) -> Any:
     """
     Recursively converts structs to the same form as when loading with `preserve_class_names`.
     """
-    if isnamedtupleinstance(value) and len(value._fields) > 0:
+    if isinstance(value, tuple) and getattr(value, "_fields", ()):
         return {
             "!__name__": value.__class__.__name__,
             **{k: to_dict(v) for k, v in value._asdict().items()},
         }
+    elif is_dataclass(value) and not isinstance(value, type):
+        return {
+            "!__name__": value.__class__.__name__,
+            **{name: to_dict(getattr(value, name)) for name in value.__dataclass_fields__},
+        }
     elif isinstance(value, dict):
         return {k: to_dict(v) for k, v in value.items()}
     return value
diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index c66fbf5..183b266 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -5,6 +5,7 @@ from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
 from venv import create
 
 from hyperstate.schema import types
+from hyperstate.schema.namedtuple_utils import to_dict
 
 WEAK_REF = "!weak ref"
 
@@ -95,7 +96,10 @@ class ChangeDefault(RewriteRule):
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(
-                state_dict, self.field, deepcopy(self.old_default), create_new=False
+                state_dict,
+                self.field,
+                to_dict(deepcopy(self.old_default)),
+                create_new=False,
             )
         else:
             _insert(
@@ -125,7 +129,7 @@ class AddDefault(RewriteRule):
         _insert(
             state_dict,
             self.field,
-            value if present else deepcopy(self.default),
+            value if present else to_dict(deepcopy(self.default)),
             create_new=False,
         )
         return state_dict
-- 
2.43.0


From 144e24ab86b834a9545723d1f246d50bf6547a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:49 +0000
Subject: [PATCH 56/69] fix: sections that upgrade rules create and empty again
 make the config invalid

---
 hyperstate/schema/versioned.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 69c0580..b15df0a 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -118,20 +118,21 @@ def _remove_emptied_sections(
     clz: Any, state_dict: Any, sections: Dict[str, _Section]
 ) -> None:
     """
-    Removes all `sections` which have lost all their fields and are not part of `clz`.
+    Removes all sections which have lost all their fields and are not part of `clz`.
+    Of `sections`, which were there before, those that never had any fields are kept.
     """
     if not isinstance(state_dict, dict):
         return
     fields = clz.__dataclass_fields__ if is_dataclass(clz) else {}
-    for name, old in sections.items():
-        section = state_dict.get(name)
+    for name, section in list(state_dict.items()):
+        old = sections.get(name, _Section(True, {}))
         if not old.has_fields or not isinstance(section, dict):
             continue
         if name in fields:
             section_clz = _section_clz(clz, name)
             if section_clz is not None:
                 _remove_emptied_sections(section_clz, section, old.children)
-        else:
+        elif WEAK_REF not in section:
             _remove_emptied_sections(None, section, old.children)
             if len(section.keys() - _ANNOTATIONS) == 0:
                 del state_dict[name]
-- 
2.43.0


From 08b74bf354bd5da565fa298796071ec21999209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:35 +0000
Subject: [PATCH 57/69] fix: empty section makes the config invalid after
 upgrade rules remove its fields

---
 hyperstate/schema/versioned.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index b15df0a..b9ad88d 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -2,7 +2,7 @@ from abc import ABC, abstractmethod
 from collections import namedtuple
 from dataclasses import dataclass, is_dataclass
 from inspect import isclass
-from typing import Any, Dict, List, Optional, Type, TypeVar, Callable, Tuple
+from typing import Any, Dict, List, Optional, Sequence, Type, TypeVar, Callable, Tuple
 from hyperstate.schema import namedtuple_utils, types
 from hyperstate.serde import (
     Deserializer,
@@ -10,7 +10,12 @@ from hyperstate.serde import (
     is_optional,
 )
 
-from hyperstate.schema.rewrite_rule import WEAK_REF, RewriteRule
+from hyperstate.schema.rewrite_rule import (
+    WEAK_REF,
+    DeleteField,
+    RenameField,
+    RewriteRule,
+)
 
 T = TypeVar("T")
 
@@ -47,6 +52,10 @@ class Versioned(ABC):
         for i in range(version, clz.version()):
             for rule in clz.upgrade_rules().get(i, []):
                 state_dict = rule.apply(state_dict)
+                if isinstance(rule, DeleteField):
+                    _set_has_fields(sections, rule.field[:-1])
+                elif isinstance(rule, RenameField):
+                    _set_has_fields(sections, rule.old_field[:-1])
         _remove_emptied_sections(clz, state_dict, sections)
         _set_version_of_new_sections(clz, state_dict, sections)
         return state_dict
@@ -77,6 +86,20 @@ def _sections(state_dict: Any) -> Dict[str, _Section]:
     }
 
 
+def _set_has_fields(sections: Dict[str, _Section], path: Sequence[str]) -> None:
+    """
+    Marks a section as having fields that the config leaves out.
+    """
+    section: Optional[_Section] = None
+    for name in path:
+        section = sections.get(name)
+        if section is None:
+            return
+        sections = section.children
+    if section is not None:
+        section.has_fields = True
+
+
 def _section_clz(clz: Any, name: str) -> Any:
     """
     Returns the dataclass of the section `name` of `clz`, if there is one.
-- 
2.43.0


From c593961ec783d6d4612ef346d14729a9f2e97d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:41 +0000
Subject: [PATCH 58/69] fix: value check proposed for optional fields and lists
 that become literals

---
 hyperstate/schema/schema_change.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index b35e896..b3fe843 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -169,7 +169,9 @@ class TypeChanged(SchemaChange):
             return MapFieldValue(
                 self.field, lambda x: int(x), rendered="lambda x: int(x)"
             )
-        elif isinstance(self.new, t.Literal):
+        elif isinstance(self.new, t.Literal) and not isinstance(
+            self.old, (t.Option, t.List)
+        ):
             return CheckValue(self.field, set(self.new.allowed_values))
         else:
             return None
-- 
2.43.0


From d17805fa143d1d9d1126b856fb36248bc9a42434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:01 +0000
Subject: [PATCH 59/69] fix: section that becomes a value makes the config
 invalid after upgrade rules remove its fields

---
 hyperstate/schema/versioned.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index b9ad88d..b26afee 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -137,11 +137,17 @@ def _set_version_of_new_sections(
         )
 
 
+def _is_dict(clz: Any) -> bool:
+    if is_optional(clz):
+        clz = clz.__args__[0]
+    return getattr(clz, "__origin__", clz) == dict
+
+
 def _remove_emptied_sections(
     clz: Any, state_dict: Any, sections: Dict[str, _Section]
 ) -> None:
     """
-    Removes all sections which have lost all their fields and are not part of `clz`.
+    Removes all sections which have lost all their fields and are not sections of `clz`.
     Of `sections`, which were there before, those that never had any fields are kept.
     """
     if not isinstance(state_dict, dict):
@@ -155,7 +161,10 @@ def _remove_emptied_sections(
             section_clz = _section_clz(clz, name)
             if section_clz is not None:
                 _remove_emptied_sections(section_clz, section, old.children)
-        elif WEAK_REF not in section:
+                continue
+            if _is_dict(fields[name].type):
+                continue
+        if WEAK_REF not in section:
             _remove_emptied_sections(None, section, old.children)
             if len(section.keys() - _ANNOTATIONS) == 0:
                 del state_dict[name]
-- 
2.43.0


From 8f76952e40da7b9b714a6a6818b65093a8813a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:28 +0000
Subject: [PATCH 60/69] fix: upgrade rules that move a bare word remove it

---
 hyperstate/schema/versioned.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index b26afee..aa5d637 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -49,14 +49,15 @@ class Versioned(ABC):
                 v < clz.version()
             ), f"{clz.__name__}.upgrade_rules() keys must be less than {clz.__name__}.version()"
         sections = _sections(state_dict)
+        emptied = _sections(state_dict)
         for i in range(version, clz.version()):
             for rule in clz.upgrade_rules().get(i, []):
                 state_dict = rule.apply(state_dict)
                 if isinstance(rule, DeleteField):
-                    _set_has_fields(sections, rule.field[:-1])
+                    _set_has_fields(emptied, rule.field[:-1])
                 elif isinstance(rule, RenameField):
-                    _set_has_fields(sections, rule.old_field[:-1])
-        _remove_emptied_sections(clz, state_dict, sections)
+                    _set_has_fields(emptied, rule.old_field[:-1])
+        _remove_emptied_sections(clz, state_dict, emptied)
         _set_version_of_new_sections(clz, state_dict, sections)
         return state_dict
 
@@ -88,16 +89,12 @@ def _sections(state_dict: Any) -> Dict[str, _Section]:
 
 def _set_has_fields(sections: Dict[str, _Section], path: Sequence[str]) -> None:
     """
-    Marks a section as having fields that the config leaves out.
+    Marks a section as having had fields, even if it was empty or not there at first.
     """
-    section: Optional[_Section] = None
     for name in path:
-        section = sections.get(name)
-        if section is None:
-            return
-        sections = section.children
-    if section is not None:
+        section = sections.setdefault(name, _Section(True, {}))
         section.has_fields = True
+        sections = section.children
 
 
 def _section_clz(clz: Any, name: str) -> Any:
@@ -148,13 +145,13 @@ def _remove_emptied_sections(
 ) -> None:
     """
     Removes all sections which have lost all their fields and are not sections of `clz`.
-    Of `sections`, which were there before, those that never had any fields are kept.
+    Sections that never had any fields are kept.
     """
     if not isinstance(state_dict, dict):
         return
     fields = clz.__dataclass_fields__ if is_dataclass(clz) else {}
-    for name, section in list(state_dict.items()):
-        old = sections.get(name, _Section(True, {}))
+    for name, old in sections.items():
+        section = state_dict.get(name)
         if not old.has_fields or not isinstance(section, dict):
             continue
         if name in fields:
-- 
2.43.0


From cf17228b94dbee8ff918d18439bda7dda0d63213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:50 +0000
Subject: [PATCH 61/69] fix: upgrades that fail while writing (disk full, say)
 truncate the config or schema file

---
 hyperstate/schema/schema_checker.py | 32 ++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 3015fd1..b7b922c 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -3,6 +3,9 @@ import typing
 from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
+import os
+import shutil
+import uuid
 
 import click
 
@@ -434,10 +437,30 @@ def levenshtein(s1: str, s2: str) -> float:
     return previous_row[-1]
 
 
+def _replace_file(filename: str, content: str) -> None:
+    """
+    Either replaces the whole content of the file or, if that fails, leaves it as it is.
+    """
+    target = os.path.realpath(filename)
+    if os.path.exists(target) and not os.path.isfile(target):
+        with open(target, "w") as f:
+            f.write(content)
+        return
+    tmp = f"{target}.{uuid.uuid4()}.tmp"
+    try:
+        with open(tmp, "w") as f:
+            f.write(content)
+        if os.path.exists(target):
+            shutil.copymode(target, tmp)
+        os.replace(tmp, target)
+    except BaseException:
+        if os.path.exists(tmp):
+            os.remove(tmp)
+        raise
+
+
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = dumps(materialize_type(type))
-    with open(filename, "w") as f:
-        f.write(serialized)
+    _replace_file(filename, dumps(materialize_type(type)))
 
 
 def _upgrade_schema(filename: str, config_clz: typing.Type[Versioned]) -> None:
@@ -479,8 +502,7 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        with open(filename, "w") as f:
-            f.write(upgraded_config)
+        _replace_file(filename, upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From 917ddf0c46ae0944b3b748a82859ab44217afee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:00 +0000
Subject: [PATCH 62/69] fix: old defaults in omitted sections are read without
 deserializers

---
 hyperstate/schema/versioned.py | 12 ++++++------
 hyperstate/serde.py            | 20 ++++++++++++++++++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aa5d637..a90729a 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -120,14 +120,14 @@ def _set_version_of_new_sections(
         return
     for name, section in state_dict.items():
         section_clz = _section_clz(clz, name)
-        if (
-            section_clz is None
-            or not isinstance(section, dict)
-            or WEAK_REF in section
-        ):
+        if section_clz is None or not isinstance(section, dict):
             continue
         old = sections.get(name)
-        if old is None and issubclass(section_clz, Versioned):
+        if (
+            old is None
+            and WEAK_REF not in section
+            and issubclass(section_clz, Versioned)
+        ):
             section.setdefault("version", section_clz.version())
         _set_version_of_new_sections(
             section_clz, section, {} if old is None else old.children
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index a90c2bd..7acf36d 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -307,7 +307,15 @@ def from_dict(
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
                 ignore_extra_fields=ignore_extra_fields,
             )
-        _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
+        _try_create_defaults(
+            clz,
+            kwargs,
+            remaining_fields,
+            fpath,
+            weak_refs,
+            deserializers,
+            ignore_extra_fields,
+        )
         try:
             instance = clz(**kwargs)  # type: ignore
             return instance
@@ -332,6 +340,8 @@ def _try_create_defaults(
     fpath: str,
     # weak_refs is values which should only be used if a dataclass is
     weak_refs: Dict[str, Any],
+    deserializers: Optional[List[Deserializer]] = None,
+    ignore_extra_fields: bool = False,
 ) -> Any:
     """
     Recursively initializes value for dataclass fields without default value with default constructor.
@@ -346,7 +356,11 @@ def _try_create_defaults(
             isinstance(weak_ref, dict) and WEAK_REF in weak_ref
         ):
             kwargs[field.name] = from_dict(
-                field.type, weak_ref, fpath=f"{fpath}.{_field_name}"
+                field.type,
+                weak_ref,
+                deserializers,
+                fpath=f"{fpath}.{_field_name}" if fpath else _field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
@@ -359,6 +373,8 @@ def _try_create_defaults(
                     _fields,
                     f"{fpath}.{_field_name}" if fpath else _field_name,
                     weak_refs=_weak_refs,
+                    deserializers=deserializers,
+                    ignore_extra_fields=ignore_extra_fields,
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
-- 
2.43.0


From 01e5fccd10451e9e691f8ef63404181de8e1328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 63/69] fix: name the override whose value cannot be parsed

---
 hyperstate/hyperstate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index a87e16f..ad91437 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -438,7 +438,12 @@ class OverridesDeserializer(Deserializer):
                         f"Invalid override: {override}. Expected '{key}' to be a bool"
                     )
             else:
-                val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
+                try:
+                    val = pyron.loads(
+                        str_val, preserve_structs=True, print_errors=False
+                    )
+                except ValueError as e:
+                    raise ValueError(f"Invalid override: {override}. {e}") from e
             # Overriding a whole section supersedes earlier overrides inside of it.
             parsed = [p for p in parsed if p[0][: len(fpath)] != fpath]
             parsed.append((fpath, val))
-- 
2.43.0


From af899cde85d4058fbb80b083573d8e5404c94ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:59 +0000
Subject: [PATCH 64/69] fix: errors about text that is no number name the field

---
 hyperstate/serde.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 7acf36d..39da622 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -190,18 +190,18 @@ def from_dict(
         return value.__class__.__name__  # type: ignore
     elif (clz == float or ufloat) and isinstance(value, int):
         return float(value)  # type: ignore
-    elif (clz == int or uint) and isinstance(value, float) and int(value) == value:
+    elif (clz == int or uint) and isinstance(value, float) and value.is_integer():
         return int(value)  # type: ignore
     elif (clz == float or ufloat) and isinstance(value, str):
-        return float(value)  # type: ignore
+        return _parse_float(value, "a float", fpath)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
         try:
             # avoid going through float, which cannot represent large integers
             return int(value)  # type: ignore
         except ValueError:
             pass
-        f = float(value)
-        if int(f) == f:
+        f = _parse_float(value, "an int", fpath)
+        if f.is_integer():
             return int(f)  # type: ignore
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
@@ -333,6 +333,15 @@ def from_dict(
     )
 
 
+def _parse_float(value: str, expected: str, fpath: str) -> float:
+    try:
+        return float(value)
+    except ValueError:
+        raise DeserializeValueError(
+            f"Expected {fpath} to be {expected}, got {repr(value)}"
+        )
+
+
 def _try_create_defaults(
     cls: Any,
     kwargs: Dict[str, Any],
-- 
2.43.0


From 929d3c0fc6e2355c6d178f6b2cdc780411734645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:11 +0000
Subject: [PATCH 65/69] fix: documentation of a derived class takes precedence
 over that of its bases

---
 hyperstate/schema/types.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 0d49301..c074853 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -411,11 +411,13 @@ def _unwrap_container_type(type: Type) -> Type:
 
 
 def _find_all_field_docs(clz: typing.Type[Any]) -> typing.Dict[str, str]:
-    docs = docstring_parser.parse(clz.__doc__ or "")
-    field_docs = {
-        f.arg_name: f.description for f in docs.params if f.description is not None
-    }
-    if hasattr(clz, "__bases__"):
-        for base in clz.__bases__:
-            field_docs.update(_find_all_field_docs(base))
+    field_docs: typing.Dict[str, str] = {}
+    # Derived classes can document inherited fields anew
+    for base in reversed(clz.__mro__):
+        docs = docstring_parser.parse(base.__doc__ or "")
+        field_docs.update(
+            (f.arg_name, f.description)
+            for f in docs.params
+            if f.description is not None
+        )
     return field_docs
-- 
2.43.0


From 62f109fa80f2b494bbd11b97531131e59a45d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:13 +0000
Subject: [PATCH 66/69] fix: help finds fields of optional sections and of
 lists of sections

---
 hyperstate/schema/help.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index a6d1361..11b9d17 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -95,6 +95,7 @@ def find_fields(
     result = []
     for f in schema.fields.values():
         result.append((path or [], name_similarity(f.name, query), f))
-        if isinstance(f.type, t.Struct):
-            result.extend(find_fields(f.type, query, (path or []) + [f.name]))
+        unwrapped = _unwrap_container_type(f.type)
+        if isinstance(unwrapped, t.Struct):
+            result.extend(find_fields(unwrapped, query, (path or []) + [f.name]))
     return result
-- 
2.43.0


From 30b6bd843f45608d98508b0ee2b98d4e7aef7a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 67/69] fix: help shows None defaults, and defaults and
 documentation of sections

---
 hyperstate/schema/help.py | 56 +++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index 11b9d17..653447a 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -37,8 +37,9 @@ def help(config_clz: Type[Any], query: str = "") -> None:
                     + " "
                     + style(str(field.type), fg="green")
                 )
+                line = _with_default(line, field)
                 if similarity >= 1.0:
-                    print(line)
+                    print(_with_docs(line, field))
                     print_schema(unwrapped, depth=1, recurse=False)
                     last_similarity = similarity
                     continue
@@ -50,43 +51,36 @@ def help(config_clz: Type[Any], query: str = "") -> None:
                     + style(": ", fg="white")
                     + style(str(field.type), fg="green")
                 )
-                if field.default is not None:
-                    line += style(" = ", fg="white") + style(
-                        repr(field.default), fg="yellow"
-                    )
-            if field.docstring is not None:
-                line += (
-                    " " * (40 - len(unstyle(line)))
-                    + style("  # ", fg="white")
-                    + style(field.docstring, fg="white")
-                )
-            print(line)
+                line = _with_default(line, field)
+            print(_with_docs(line, field))
             last_similarity = similarity
 
 
 def print_schema(schema: t.Struct, depth: int = 0, recurse: bool = True) -> None:
     for f in schema.fields.values():
         line = "  " * depth + style(f.name, fg="cyan") + style(":", fg="white") + " "
+        line = _with_default(line + style(str(f.type), fg="green"), f)
+        print(_with_docs(line, f))
         unwrapped = _unwrap_container_type(f.type)
-        if isinstance(unwrapped, t.Struct):
-            line += style(str(f.type), fg="green")
-            print(line)
-            line = ""
-            if recurse:
-                print_schema(unwrapped, depth + 1)
-            continue
-        else:
-            line += style(f.type, fg="green")
-        if f.default is not None:
-            line += style(" = ", fg="white") + style(repr(f.default), fg="yellow")
-        if line != "":
-            if f.docstring is not None:
-                line += (
-                    " " * (40 - len(unstyle(line)))
-                    + style("  # ", fg="white")
-                    + style(f.docstring, fg="white")
-                )
-            print(line)
+        if isinstance(unwrapped, t.Struct) and recurse:
+            print_schema(unwrapped, depth + 1)
+
+
+def _with_default(line: str, field: t.Field) -> str:
+    if not field.has_default:
+        return line
+    return line + style(" = ", fg="white") + style(repr(field.default), fg="yellow")
+
+
+def _with_docs(line: str, field: t.Field) -> str:
+    if field.docstring is None:
+        return line
+    return (
+        line
+        + " " * (40 - len(unstyle(line)))
+        + style("  # ", fg="white")
+        + style(field.docstring, fg="white")
+    )
 
 
 def find_fields(
-- 
2.43.0


From c93f4903eec80d10a06a092e9c42b0eb3c63d699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:53 +0000
Subject: [PATCH 68/69] fix: resume from the greatest key when keys have more
 than 12 digits

---
 hyperstate/hyperstate.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index ad91437..c63c2cc 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -119,7 +119,7 @@ class StateManager(Generic[C, S]):
     def checkpoint_dir(self, value: Union[Path, None]) -> None:
         if value is not None:
             value.mkdir(parents=True, exist_ok=True)
-            checkpoint = find_latest_checkpoint(value)
+            checkpoint = find_latest_checkpoint(value, self.checkpoint_key)
             if checkpoint is not None:
                 self._last_checkpoint = checkpoint
         else:
@@ -346,7 +346,7 @@ def load(
     )[0]
 
 
-def find_latest_checkpoint(dir: Path) -> Optional[Path]:
+def find_latest_checkpoint(dir: Path, checkpoint_key: str = "") -> Optional[Path]:
     # Check that dir exists
     if not dir.exists():
         return None
@@ -354,9 +354,14 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest_dir = None
     for d in dir.iterdir():
         if d.is_dir() and d.name.startswith("latest-") and len(d.name) >= 12:
+            digits = d.name[-12:]
+            prefix = f"latest-{checkpoint_key}"
+            if d.name.startswith(prefix) and len(d.name) > len(prefix) + 12:
+                # keys may have more than 12 digits
+                digits = d.name[len(prefix) :]
             try:
-                if latest is None or int(d.name[-12:]) > latest:
-                    latest = int(d.name[-12:])
+                if latest is None or int(digits) > latest:
+                    latest = int(digits)
                     latest_dir = d
             except ValueError:
                 pass
-- 
2.43.0


From 5b3323958cb6d1904025fa2d9e917f0c3654ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:51 +0000
Subject: [PATCH 69/69] fix: stored objects are found when an upgrade rule
 renames their field

---
 hyperstate/hyperstate.py |  4 ++-
 hyperstate/lazy.py       | 57 ++++++++++++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index c63c2cc..324f56a 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -38,7 +38,7 @@ from hyperstate.serde import (
     set_item,
 )
 import hyperstate.serde as serde
-from .lazy import Lazy, LazyDeserializer, LazySerializer
+from .lazy import BlobLocator, Lazy, LazyDeserializer, LazySerializer
 import pyron
 
 from hyperstate.schedule import Schedule, _parse_schedule
@@ -292,6 +292,8 @@ def _typed_load(
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
+        # Upgrades may move stored objects, note where they are before that.
+        deserializers.insert(0, BlobLocator())
         lazy = LazyDeserializer(config, file.absolute().parent)
         deserializers.append(lazy)
         value = serde.load(
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 71a788c..613e837 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -15,7 +15,13 @@ from dataclasses import dataclass, field
 from pathlib import Path
 import msgpack
 
-from hyperstate.serde import Serializer, Deserializer, set_nested
+from hyperstate.serde import (
+    Serializer,
+    Deserializer,
+    escape,
+    isnamedtupleinstance,
+    set_nested,
+)
 from hyperstate import msgpack_torch
 
 
@@ -97,6 +103,46 @@ class Lazy:
         self._deserialize_ctx[key] = value
 
 
+class BlobRef(str):
+    """
+    Reference to a stored object that remembers at which path it was dumped.
+    """
+
+    path: str
+
+
+class BlobLocator(Deserializer):
+    def deserialize(
+        self,
+        cls: Type[T],
+        value: Any,
+        path: str,
+    ) -> Tuple[Optional[T], bool, bool]:
+        if path == "":
+            return self._locate(value, ""), True, False
+        return None, False, False
+
+    def _locate(self, value: Any, path: str) -> Any:
+        prefix = f"{path}." if path else ""
+        if isnamedtupleinstance(value):
+            return type(value)(
+                *(self._locate(v, prefix + k) for k, v in value._asdict().items())
+            )
+        elif isinstance(value, dict):
+            return {
+                k: self._locate(v, prefix + escape(k)) for k, v in value.items()
+            }
+        elif isinstance(value, (list, tuple)):
+            return type(value)(
+                self._locate(v, f"{path}[{i}]") for i, v in enumerate(value)
+            )
+        elif value in ("<BLOB>", "<blob:pickle>", "<blob:msgpack>"):
+            ref = BlobRef(value)
+            ref.path = path
+            return ref
+        return value
+
+
 @dataclass
 class LazyDeserializer(Deserializer, Generic[C]):
     config: C
@@ -117,6 +163,10 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 or value == "<blob:pickle>"
                 or value == "<blob:msgpack>"
             )
+            if isinstance(value, BlobRef):
+                path, dest = value.path, path
+            else:
+                dest = path
             if value == "<BLOB>":
                 filepath = path.replace(".", "/").replace("[", "/").replace("]", "")
             elif value == "<blob:pickle>":
@@ -128,13 +178,16 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 filepath = (
                     "state." + path.replace("[", ".").replace("]", "") + ".msgpack"
                 )
-            self.lazy_fields[path] = (
+            self.lazy_fields[dest] = (
                 cls,
                 self.config,
                 self.path / filepath,
                 value == "<BLOB>" or value == "<blob:pickle>",
             )
             return None, True, True
+        elif isinstance(value, BlobRef):
+            # Some other string.
+            return str(value), True, False  # type: ignore
         return None, False, False
 
     def attach(self, state: Any, ctx: Dict[str, Any]) -> None:
-- 
2.43.0

