#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

HS="hyperstate/hyperstate.py"; LZ="hyperstate/lazy.py"; SC="hyperstate/schedule.py"; SE="hyperstate/serde.py"
VE="hyperstate/schema/versioned.py"; RR="hyperstate/schema/rewrite_rule.py"; CK="hyperstate/schema/schema_checker.py"
CH="hyperstate/schema/schema_change.py"; TY="hyperstate/schema/types.py"; HP="hyperstate/schema/help.py"; CM="hyperstate/command.py"; MP="hyperstate/msgpack_torch.py"

p("C01","A crash at any instant never loses the persisted training state",
  "If the process is killed at any instant, including in the middle of a step that is persisting a checkpoint, then restarting on the same checkpoint directory resumes either from the complete state persisted by the last step that returned or from the complete state of the step in progress, never from an older, partial, mixed or initial one. A checkpoint becomes visible under its final name only once it is complete, and the one it replaces is removed only after that. This holds whether or not the temporary directory and the checkpoint directory are on the same filesystem.",
  ["crash_points","histories","configurations"],
  "every sequence of steps, kills (at every filesystem operation of a step or of a start) and restarts; same and different filesystems; states with and without separately stored objects",
  "The one checkpoint test runs a single step to completion on one filesystem; it never crashes, so any ordering of copy, rename and delete passes it.",
  [HS], [("write to a temporary directory, then rename into place (copy to a temporary name next to the target and rename when crossing filesystems)", "hyperstate/hyperstate.py checkpoint, atomic_move"),("remove the previous checkpoint only after the new one is in place","hyperstate/hyperstate.py step"),("discovery ignores directories that are not complete checkpoints","hyperstate/hyperstate.py find_latest_checkpoint")],
  ["directory listing of the checkpoint directory at every crash point","state, config and blobs seen by a manager restarted on it"],
  [("checkpoint directory","the set of visible checkpoints, each complete or not","disk"),("last checkpoint","path of the checkpoint the manager believes current","StateManager")])
p("C02","A step that fails leaves the last good checkpoint intact and is recoverable",
  "If persisting a checkpoint fails with an error (an I/O error or full disk at any point, or a state object whose serialization raises), the error reaches the caller and the newest complete checkpoint present before or after the failure stays complete and is what a restart resumes from. The same manager can go on stepping: once the fault is gone its next step at a new key succeeds and is what a restart then resumes from. No failure makes a partially written checkpoint visible under a checkpoint name.",
  ["fault_sequences","histories"],
  "every single filesystem operation of a step failing with an I/O error, and serialization failing for config, state or stored objects, followed by further steps and restarts",
  "No test injects a failure.",
  [HS,LZ], [("temporary directory plus rename","hyperstate/hyperstate.py checkpoint, atomic_move"),("bookkeeping of the last checkpoint in step","hyperstate/hyperstate.py step")],
  ["exceptions raised by step","directory listing","state seen by a restarted manager"],
  [("last checkpoint","path believed current after a failed step","StateManager")])
p("C03","Interrupting and restarting a run is invisible to the training loop",
  "For a deterministic training loop, a run that is stopped after any completed steps and restarted from its checkpoint directory, any number of times, sees at every step exactly the state (including separately stored objects) and configuration values (including scheduled values) that an uninterrupted run sees. This also holds when the loop calls step again at the key it resumed from.",
  ["histories","inputs"],
  "every sequence of steps, repeated steps and restarts, over states with primitives, nested dataclasses, containers and stored objects, and configs with constants and schedules",
  "The test restarts once after one step and never steps again after the restart.",
  [HS,LZ,SE], [("state and config written together at each step","hyperstate/hyperstate.py checkpoint"),("restored lazily, schedules re-applied on access to the state","hyperstate/hyperstate.py state, _load_state, _load_config")],
  ["config and state attributes after each step in interrupted and uninterrupted runs"])
p("C04","A manager starts from the newest checkpoint, else the init path, else afresh",
  "On start a manager resumes config and state from the automatically written checkpoint with the greatest key in its checkpoint directory if there is one, whatever the initial path is; otherwise from the initial path if that is a checkpoint directory; otherwise it builds the initial state from the config in the given file (or from defaults). Leftover temporary copies, unrelated files and directories, and manually saved checkpoints in the checkpoint directory never change this choice. Overrides given at start apply in every case.",
  ["configurations","histories"],
  "every combination of checkpoint directory contents (any keys below 10^12, leftovers, foreign entries, manual checkpoints), initial path kind and overrides",
  "Tests use a directory with exactly one checkpoint and nothing else.",
  [HS], [("selection by key parsed from the directory name","hyperstate/hyperstate.py find_latest_checkpoint, checkpoint_dir setter"),("fallback order","hyperstate/hyperstate.py _load_config, _load_state")],
  ["config and state of a freshly constructed manager"],
  [("checkpoint directory contents","names, kinds, completeness","disk"),("init path","none, config file or checkpoint directory","constructor argument")])
p("C05","Stepping deletes nothing except the checkpoint it has just superseded",
  "After a step returns, the checkpoint for the current key exists, and of everything that was in the checkpoint directory only this manager's immediately preceding automatic checkpoint may be gone. Repeating a step at an unchanged key keeps the existing checkpoint, manually saved checkpoints and the checkpoint used as initial path are never modified or removed, and a sequence of steps leaves exactly one automatic checkpoint written by that run. No temporary files are left behind by a step that returns.",
  ["histories","configurations"],
  "every sequence of steps (new and repeated keys), manual checkpoints and restarts, with foreign entries present and with the initial path inside or outside the checkpoint directory",
  "The test steps once; it never looks at what is removed.",
  [HS], [("the previous checkpoint is moved away after the new one is installed","hyperstate/hyperstate.py step"),("temporary directories are context managed","hyperstate/hyperstate.py checkpoint, step")],
  ["recursive listing and contents of checkpoint directory, init path and temporary directory after each step"],
  [("last checkpoint","path to be removed at the next step","StateManager")])
p("C06","A scheduled hyperparameter always equals its schedule at the current key",
  "After every step, and after the state is first accessed on a start or restart, each config field given as a schedule, at any depth of nested dataclasses, lists and dicts, equals the value its schedule defines at the current value of the state field it names: the stated value exactly at each point (of several points at one key, the one stated last), the chosen interpolation (linear, cosine, or hold until the next point) between points, the first value before the first point and the last value from the last point on. An int field gets that value truncated to an int. Fields that are not scheduled never change.",
  ["inputs","histories"],
  "every schedule (number, spacing and order of points, mixes of interpolations, zero width jumps), nesting position, field type and history of key values, including decreasing ones",
  "One schedule at depth one with two points is evaluated at a single key.",
  [SC,HS], [("parser and piecewise evaluation","hyperstate/schedule.py"),("collection by path while loading, update on step and on state access","hyperstate/hyperstate.py ScheduleDeserializer, _apply_schedules")],
  ["config attribute values after step and after restart"],
  [("schedules","tree of schedules by config path","StateManager")])
p("C07","Schedule definitions survive checkpoints, restarts and config upgrades",
  "A schedule given in a config file or override keeps its full definition, not just its current value, through any chain of checkpoints, restarts and config file upgrades, so that the value at every later key is unchanged by them. A field whose schedule is overridden with a constant, or a constant with a schedule, behaves as the override says from then on, including after restarts.",
  ["histories","inputs"],
  "every chain of checkpoint, restart, override and upgrade-config operations, at any nesting position and any current key",
  "The test restarts once and never evaluates the schedule again afterwards.",
  [HS,CK], [("schedule text is written in place of the value","hyperstate/hyperstate.py ScheduleSerializer, checkpoint"),("upgrade-config passes schedules through","hyperstate/schema/schema_checker.py _upgrade_config")],
  ["config.ron in checkpoints and upgraded config files","config values after later steps"])
p("C08","Whatever is dumped can be loaded back to an equal object",
  "For every supported value (nested dataclasses with int, float, bool, str, enum, literal, optional, list, tuple, string-keyed dict and dataclass-union fields, versioned or not) loading the dumped text or file with the same class gives an object equal to the original, field by field and with the same types. The same holds when default values are elided, and eliding only leaves out fields whose value equals their default.",
  ["inputs"],
  "every class built from the supported types (nesting, defaults and default factories, empty containers, None at every optional) and every value of it; floats include infinities, strings include quotes and escapes",
  "Tests round trip a handful of hand written values; the only enum value tested is the one whose name equals its value.",
  [SE,HS,VE], [("asdict and from_dict are inverse","hyperstate/serde.py"),("ElideDefaults","hyperstate/hyperstate.py")],
  ["dumps, dump, loads and load results"])
p("C09","Loading either yields a well typed object or fails; nothing is guessed",
  "Loading never returns an object with a field whose value does not conform to its declared type: an int is accepted for a float; a string that spells a number is accepted for a float; a float, or a string that spells a number, is accepted for an int only if it has no fractional part; anything else (wrong kind, wrong tuple length, unknown literal or enum value) is an error. Left open are a bool given for an int or float, and values that Python holds equal to a stated literal or enum value of another type (True, 1 and 1.0). Unknown fields and missing fields without default are errors at every depth, except that unknown fields at any depth are dropped when ignoring extra fields was asked for, and an omitted dataclass field is built from its defaults when it has them all.",
  ["inputs"],
  "every pair of class and config text over the supported types, well typed or not, with extra and missing fields at any depth",
  "Tests only load matching configs; no test expects a type error.",
  [SE], [("from_dict dispatch on declared type","hyperstate/serde.py from_dict"),("construction of omitted sections","hyperstate/serde.py _try_create_defaults")],
  ["result or exception of loads, load, StateManager.config"])
p("C10","An override sets exactly the named field, with priority over everything else",
  "Loading with overrides gives exactly the config that loading without them gives, except that each named field has the overriding value converted to the field's type: an override wins over the file, over defaults, over checkpoints and over the upgrade of an old config version, later overrides of a field win over earlier ones, and all sibling fields keep their values. Overriding inside an absent optional or omitted section creates that section. An override that names an unknown field, lacks a value, or whose value does not fit the field's type is an error and never silently ignored or applied to another field.",
  ["inputs","configurations"],
  "every class, config (any version, sections present, omitted or None) and list of overrides, in every order",
  "One test overrides five fields on an empty config at the current version.",
  [HS], [("overrides edit the parsed config before construction","hyperstate/hyperstate.py OverridesDeserializer")],
  ["result or exception of load/loads/StateManager with overrides"])
p("C11","Loading an old config applies exactly the pending upgrade rules, in order",
  "Loading data recorded at version v of a versioned class whose current version is n applies every upgrade rule registered for versions v to n-1 exactly once, in version order and in listed order within a version, and no other rule; each rule sees the result of the previous one. Data recorded at the current version is not rewritten. This holds for versioned classes nested anywhere inside the loaded one, each with its own version, and dumping always records the current version.",
  ["inputs","programs"],
  "every version pair, every assignment of rule lists to versions (gaps included), built in and custom rules, nested versioned classes",
  "Tests only upgrade across one version with one rule list.",
  [VE], [("_apply_upgrades iterates versions","hyperstate/schema/versioned.py"),("version field written first and popped on load","hyperstate/schema/versioned.py VersionedSerializer, VersionedDeserializer")],
  ["object loaded from data of each version","order and number of rule applications seen by instrumented rules"])
p("C12","Each upgrade rule changes only its field and preserves the config's old meaning",
  "Upgrading a config with a rule keeps every field the rule does not name, and gives the named field its documented effect at any depth: rename moves the value, delete drops it, map transforms a present value, added and changed defaults make a field that the old config left out take the old default (also when its whole section was left out, unless that section has a default of its own) and never touch a value that is present, check and reject raise exactly on disallowed values (of lists: on disallowed elements; None passes) and otherwise change nothing. What renaming a field into a section that is None means is left open. A rule whose field is absent (or lies under an absent or None section) has no other effect and raises no error.",
  ["inputs","programs"],
  "every rule kind and field path, every config tree (section absent, None, partial, full), and every sequence of rules",
  "Tests apply few rules to full configs; reject rules and None sections are never exercised.",
  [RR,SE], [("rule application on the parsed config","hyperstate/schema/rewrite_rule.py"),("weak sections","hyperstate/serde.py _try_create_defaults, hyperstate/schema/rewrite_rule.py _insert")],
  ["object loaded from old configs through rules"])
p("C13","A change the schema checker calls compatible never breaks an old config",
  "Whenever the checker reports a schema change as compatible (severity info), with the class's upgrade rules taken into account, every config that was valid under the old schema loads under the new class, and every value it states and every default it relied on keeps its meaning. Any other change is reported as a warning or error. The check never reports compatible because part of a schema was not compared.",
  ["inputs","programs"],
  "every pair of old and new class over the supported types (fields added, removed, renamed, retyped, defaults added, removed or changed, enum and literal variants changed, at any depth) and every old config",
  "Tests assert the checker's output on seven hand written pairs and never load the full set of old configs against a compatible verdict.",
  [CK,CH,TY], [("structural diff with subtyping","hyperstate/schema/schema_checker.py _find_changes, hyperstate/schema/types.py is_subtype"),("severities","hyperstate/schema/schema_change.py")],
  ["SchemaChecker severity","results of loading old configs"])
p("C14","An unchanged class always checks clean against its own dumped schema",
  "Dumping the schema of any supported class and checking the class against the loaded schema file reports no change and severity info. The loaded schema equals the one derived from the class in every field's type, default and presence of default, and the class version.",
  ["programs","inputs"],
  "every class built from the supported types, with primitive, container, enum, literal, optional and dataclass defaults, at any depth",
  "The only test of schema dumping prints it; none loads one back.",
  [TY,CK], [("materialize_type, schema dump and load_schema","hyperstate/schema/types.py"),("comparison of defaults","hyperstate/schema/schema_checker.py")],
  ["schema file written by the command line tool","report of the checker"])
p("C15","Following the checker's proposed mitigations resolves the incompatibility",
  "If every change the checker reports comes with a proposed rule, then registering the proposed rules for the old version and bumping the version makes the checker report the schema as compatible. Every config that was valid under the old schema then loads with each stated value under its possibly renamed field and with the old defaults for fields it left out, or is rejected because a value it states or relied on is not allowed any more.",
  ["programs","inputs"],
  "every old and new class differing by removed, renamed, moved (in or out of sections) or optional/list fields added, defaults changed or removed, literal values removed, strings narrowed to literals and enum values changed",
  "Tests compare the proposed rules with expected lists, but their check after applying them is vacuous and configs are loaded only for four pairs.",
  [CH,CK,RR], [("proposed_fix of each change","hyperstate/schema/schema_change.py"),("rules applied to the schema","hyperstate/schema/rewrite_rule.py apply_to_schema")],
  ["proposed fixes, severity after applying them, objects loaded"])
p("C16","The schema evolution tool never damages the files it is given",
  "Upgrading a config file leaves a file that loads, with the current class and without further upgrades, to exactly what the original loaded to (schedules included), and upgrading it again changes nothing. A dry run, a check, and an upgrade that fails leave every file byte for byte unchanged, and the schema file is rewritten only when the checker reports compatible, otherwise the report is printed. Once a command returns, the file contents are complete on disk.",
  ["inputs","histories"],
  "every sequence of tool commands over config files of any version (with elided defaults, schedules, disallowed values, malformed ones) and schema files, with and without including defaults",
  "No test runs any of the tool's commands.",
  [CK], [("_upgrade_config, _upgrade_schema","hyperstate/schema/schema_checker.py"),("default elision","hyperstate/hyperstate.py ElideDefaults")],
  ["file bytes before and after each command","objects loaded from them"])
p("C17","A lazily loaded field is read once, on first access, and never overwrites data",
  "A stored object in a lazily loaded state is read from its file only when the field is first accessed, at most once, and that access yields the object that was saved, built with the given context, config and the state itself; a missing file is an error only on that access. Assigning the field makes the assigned value stick whether or not it was loaded before. Dumping a state whose fields have not been loaded writes the same objects again, and a state that does not opt into lazy loading, or stored objects nested deeper, restore complete.",
  ["histories","inputs"],
  "every sequence of access, assignment, dump, file removal, context change and restart over states with several stored objects, including ones that depend on each other, nested ones and ones in containers",
  "One test accesses one field once after a restart.",
  [LZ,HS], [("Lazy attribute interception","hyperstate/lazy.py Lazy.__getattribute__"),("LazySerializer and LazyDeserializer agree on blob paths","hyperstate/lazy.py")],
  ["values and identity returned by field access","number of deserializations and file reads"],
  [("unloaded fields","fields not read yet and where to read them","Lazy object")])
p("C18","Stored objects come back with identical, usable contents",
  "Any serialized form made of None, booleans, numbers (integers of up to 64 bits), strings, bytes, lists, dicts and arrays of any numeric dtype and shape, nested in any way, is restored with equal contents; arrays keep dtype, shape and element order and can be modified in place, also after several checkpoint and restart rounds. Two stored objects never share or overwrite each other's data.",
  ["inputs","histories"],
  "every nesting of payload kinds, dtype, shape (empty, zero dimensional, non contiguous), number of stored objects and rounds",
  "One one-dimensional float array is restored once.",
  [MP,LZ], [("array codec","hyperstate/msgpack_torch.py"),("one file per object path","hyperstate/lazy.py LazySerializer")],
  ["payload handed to deserialize, byte for byte"])
p("C19","Pickled data in a snapshot is never executed without explicit opt-in",
  "Loading, accessing, stepping or checkpointing a state that refers to legacy pickled objects never unpickles anything unless the environment opt-in is set; the access fails with an error instead and everything else in the snapshot stays usable (for fields that are not lazy, restoring fails). With the opt-in set, legacy snapshots load.",
  ["inputs","configurations"],
  "every legacy marker and field position, every operation, with and without the opt-in",
  "No test loads a legacy snapshot.",
  [LZ], [("environment guard before unpickling","hyperstate/lazy.py Lazy.__getattribute__")],
  ["side effect of a booby trapped pickle, exception on access"])
p("C20","Command line entry points run the program with exactly the requested config",
  "A decorated function is called exactly once, with the config that loading the given file with the given overrides yields (for stateful programs: with a manager that has the given checkpoint directory, starting point and overrides), and its return value is passed on. If the config or an override is invalid (for stateful programs: at the latest when the function first asks for the config or state), a message naming the offending field or value is printed or part of the exception that ends the program, which does not end as if it had succeeded; an override without a value or a request for information prints help instead of calling the function. Asking for both a config file and a checkpoint to resume from is refused.",
  ["inputs","configurations"],
  "every combination of arguments: config file or resume path, checkpoint directory, overrides valid, unknown, malformed or ill typed, information requests",
  "No test goes through the command line entry points.",
  [CM], [("argument parsing and error reporting","hyperstate/command.py")],
  ["calls of the decorated function, exit status, output"])
p("C21","Help describes every hyperparameter truthfully and finds it by name",
  "The help listing shows every field of the config, at every depth (sections, optional sections and lists of sections) and in declaration order, with its type, its default if it has one and its documentation, that of a derived class taking precedence. Asking for help on the name of an existing field always shows every field of that name with its full path, type, default and documentation.",
  ["inputs","programs"],
  "every config class (nesting, inheritance, documented or not, all supported types and defaults) and every field name as query",
  "One class is listed; no query is tested.",
  [HP,TY], [("listing and search","hyperstate/schema/help.py")],
  ["printed output"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
