"""Interpreted model of the parts of argparse a command line can rely on."""

SUPPRESS = "==SUPPRESS=="
OPTIONAL = "?"
ZERO_OR_MORE = "*"
ONE_OR_MORE = "+"
REMAINDER = "..."
PARSER = "A..."


class ArgumentError(Exception):
    pass


class ArgumentTypeError(Exception):
    pass


class HelpFormatter:
    pass


class RawDescriptionHelpFormatter(HelpFormatter):
    pass


class RawTextHelpFormatter(HelpFormatter):
    pass


class ArgumentDefaultsHelpFormatter(HelpFormatter):
    pass


class MetavarTypeHelpFormatter(HelpFormatter):
    pass


class Namespace:
    def __init__(self, **kwargs):
        for name in kwargs:
            setattr(self, name, kwargs[name])

    def __contains__(self, key):
        return key in self.__dict__


class Action:
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None, required=False, help=None, metavar=None):
        self.option_strings = option_strings
        self.dest = dest
        self.nargs = nargs
        self.const = const
        self.default = default
        self.type = type
        self.choices = choices
        self.required = required
        self.help = help
        self.metavar = metavar

    def __call__(self, parser, namespace, values, option_string=None):
        raise NotImplementedError(".__call__() not defined")


class _StoreAction(Action):
    def __init__(self, option_strings, dest, nargs=None, const=None, default=None, type=None, choices=None, required=False, help=None, metavar=None):
        if nargs == 0:
            raise ValueError("nargs for store actions must be != 0")
        if const is not None and nargs != "?":
            raise ValueError("nargs must be '?' to supply const")
        Action.__init__(self, option_strings, dest, nargs, const, default, type, choices, required, help, metavar)

    def __call__(self, parser, namespace, values, option_string=None):
        setattr(namespace, self.dest, values)


class _StoreConstAction(Action):
    def __init__(self, option_strings, dest, const=None, default=None, required=False, help=None, metavar=None):
        Action.__init__(self, option_strings, dest, nargs=0, const=const, default=default, required=required, help=help)

    def __call__(self, parser, namespace, values, option_string=None):
        setattr(namespace, self.dest, self.const)


class _StoreTrueAction(_StoreConstAction):
    def __init__(self, option_strings, dest, default=False, required=False, help=None):
        _StoreConstAction.__init__(self, option_strings, dest, True, default, required, help)


class _StoreFalseAction(_StoreConstAction):
    def __init__(self, option_strings, dest, default=True, required=False, help=None):
        _StoreConstAction.__init__(self, option_strings, dest, False, default, required, help)


class _AppendAction(_StoreAction):
    def __call__(self, parser, namespace, values, option_string=None):
        items = getattr(namespace, self.dest, None)
        items = [] if items is None else list(items)
        items.append(values)
        setattr(namespace, self.dest, items)


class _ExtendAction(_StoreAction):
    def __call__(self, parser, namespace, values, option_string=None):
        items = getattr(namespace, self.dest, None)
        items = [] if items is None else list(items)
        items.extend(values)
        setattr(namespace, self.dest, items)


class _CountAction(Action):
    def __init__(self, option_strings, dest, default=None, required=False, help=None):
        Action.__init__(self, option_strings, dest, nargs=0, default=default, required=required, help=help)

    def __call__(self, parser, namespace, values, option_string=None):
        count = getattr(namespace, self.dest, None)
        setattr(namespace, self.dest, (0 if count is None else count) + 1)


class _HelpAction(Action):
    def __init__(self, option_strings, dest=SUPPRESS, default=SUPPRESS, help=None):
        Action.__init__(self, option_strings, dest, nargs=0, default=default, help=help)

    def __call__(self, parser, namespace, values, option_string=None):
        parser.print_help()
        parser.exit()


class _VersionAction(Action):
    def __init__(self, option_strings, version=None, dest=SUPPRESS, default=SUPPRESS, help=None):
        Action.__init__(self, option_strings, dest, nargs=0, default=default, help=help)

    def __call__(self, parser, namespace, values, option_string=None):
        parser.exit()


class BooleanOptionalAction(Action):
    def __init__(self, option_strings, dest, default=None, type=None, choices=None, required=False, help=None, metavar=None):
        names = []
        for option in option_strings:
            names.append(option)
            if option.startswith("--"):
                names.append("--no-" + option[2:])
        Action.__init__(self, names, dest, nargs=0, default=default, type=type, choices=choices, required=required, help=help, metavar=metavar)

    def __call__(self, parser, namespace, values, option_string=None):
        setattr(namespace, self.dest, not option_string.startswith("--no-"))


class _SubParsersAction(Action):
    def __init__(self, option_strings, prog, parser_class, dest=SUPPRESS, required=False, help=None, metavar=None):
        self._parser_class = parser_class
        self._prog = prog
        self.name_parser_map = {}
        Action.__init__(self, option_strings, dest, nargs=PARSER, choices=self.name_parser_map, required=required, help=help, metavar=metavar)

    def add_parser(self, name, help=None, aliases=(), **kwargs):
        if kwargs.get("prog") is None:
            kwargs["prog"] = self._prog + " " + name
        if name in self.name_parser_map:
            raise ArgumentError("conflicting subparser: " + name)
        parser = self._parser_class(**kwargs)
        parser._subcommand_help = help
        self.name_parser_map[name] = parser
        for alias in aliases:
            self.name_parser_map[alias] = parser
        return parser

    def __call__(self, parser, namespace, values, option_string=None):
        name = values[0]
        if self.dest != SUPPRESS:
            setattr(namespace, self.dest, name)
        if name not in self.name_parser_map:
            parser.error("unknown parser")
        sub, rest = self.name_parser_map[name].parse_known_args(values[1:])
        for key, value in vars(sub).items():
            setattr(namespace, key, value)
        if rest:
            namespace._unrecognized = rest


_ACTIONS = {
    None: _StoreAction,
    "store": _StoreAction,
    "store_const": _StoreConstAction,
    "store_true": _StoreTrueAction,
    "store_false": _StoreFalseAction,
    "append": _AppendAction,
    "extend": _ExtendAction,
    "count": _CountAction,
    "help": _HelpAction,
    "version": _VersionAction,
    "parsers": _SubParsersAction,
}


class _Group:
    def __init__(self, parser, required=False):
        self._parser = parser
        self._actions = []
        self.required = required

    def add_argument(self, *args, **kwargs):
        action = self._parser.add_argument(*args, **kwargs)
        self._actions.append(action)
        return action

    def add_mutually_exclusive_group(self, required=False):
        return self._parser.add_mutually_exclusive_group(required)

    def add_argument_group(self, *args, **kwargs):
        return _Group(self._parser)


class ArgumentParser:
    def __init__(self, prog=None, usage=None, description=None, epilog=None, parents=(), formatter_class=HelpFormatter, prefix_chars="-",
                 fromfile_prefix_chars=None, argument_default=None, conflict_handler="error", add_help=True, allow_abbrev=True, exit_on_error=True):
        self.prog = prog
        self.usage = usage
        self.description = description
        self.epilog = epilog
        self.formatter_class = formatter_class
        self.prefix_chars = prefix_chars
        self.conflict_handler = conflict_handler
        self.argument_default = argument_default
        self.allow_abbrev = allow_abbrev
        self.add_help = add_help
        self._actions = []
        self._option_string_actions = {}
        self._positionals = []
        self._exclusive = []
        self._defaults = {}
        self._subparsers = None
        if add_help:
            prefix = "-" if "-" in prefix_chars else prefix_chars[0]
            self.add_argument(prefix + "h", prefix + prefix + "help", action="help", default=SUPPRESS, help="show this help message and exit")
        for parent in parents:
            for action in parent._actions:
                self._add_action(action)

    def register(self, *args):
        pass

    def set_defaults(self, **kwargs):
        for key in kwargs:
            self._defaults[key] = kwargs[key]
            for action in self._actions:
                if action.dest == key:
                    action.default = kwargs[key]

    def get_default(self, dest):
        for action in self._actions:
            if action.dest == dest and action.default is not None:
                return action.default
        return self._defaults.get(dest, None)

    def add_argument(self, *args, **kwargs):
        if not args or (len(args) == 1 and args[0][0] not in self.prefix_chars):
            if args and "dest" in kwargs:
                raise ValueError("dest supplied twice for positional argument")
            dest = args[0] if args else kwargs.pop("dest")
            options = []
            if "required" in kwargs:
                raise TypeError("'required' is an invalid argument for positionals")
            if kwargs.get("nargs") not in (OPTIONAL, ZERO_OR_MORE, REMAINDER, 0):
                kwargs["required"] = True
            if kwargs.get("nargs") == ZERO_OR_MORE and "default" not in kwargs:
                kwargs["required"] = True
        else:
            options = list(args)
            long = None
            for option in options:
                if option[0] not in self.prefix_chars:
                    raise ValueError("invalid option string")
                if long is None and len(option) > 1 and option[1] in self.prefix_chars:
                    long = option
            dest = kwargs.pop("dest", None)
            if dest is None:
                dest = (long if long is not None else options[0]).lstrip(self.prefix_chars).replace("-", "_")
        if "default" not in kwargs:
            if dest in self._defaults:
                kwargs["default"] = self._defaults[dest]
            elif self.argument_default is not None:
                kwargs["default"] = self.argument_default
        action_class = kwargs.pop("action", None)
        if action_class is None or isinstance(action_class, str):
            if action_class not in _ACTIONS:
                raise ValueError("unknown action")
            action_class = _ACTIONS[action_class]
        metavar = kwargs.get("metavar")
        if isinstance(metavar, tuple) and isinstance(kwargs.get("nargs"), int) and kwargs["nargs"] != len(metavar):
            raise ValueError("length of metavar tuple does not match nargs")
        action = action_class(options, dest, **kwargs)
        if action.type is not None and not callable(action.type):
            raise ValueError("type is not callable")
        return self._add_action(action)

    def _add_action(self, action):
        for option in action.option_strings:
            if option in self._option_string_actions and self.conflict_handler == "error":
                raise ArgumentError("conflicting option string: " + option)
            self._option_string_actions[option] = action
        if not action.option_strings:
            self._positionals.append(action)
        self._actions.append(action)
        return action

    def add_argument_group(self, *args, **kwargs):
        return _Group(self)

    def add_mutually_exclusive_group(self, required=False):
        group = _Group(self, required)
        self._exclusive.append(group)
        return group

    def add_subparsers(self, title=None, description=None, prog=None, parser_class=None, action=None, option_strings=(), dest=SUPPRESS, required=False, help=None, metavar=None):
        if self._subparsers is not None:
            self.error("cannot have multiple subparser arguments")
        subparsers = _SubParsersAction([], str(self.prog), parser_class or ArgumentParser, dest, required, help, metavar)
        self._subparsers = subparsers
        return self._add_action(subparsers)

    def parse_args(self, args=None, namespace=None):
        namespace, rest = self.parse_known_args(args, namespace)
        if rest:
            self.error("unrecognized arguments")
        return namespace

    def parse_known_args(self, args=None, namespace=None):
        if args is None:
            args = _ARGV
        args = list(args)
        if namespace is None:
            namespace = Namespace()
        for action in self._actions:
            if action.dest != SUPPRESS and action.default != SUPPRESS:
                if not hasattr(namespace, action.dest):
                    setattr(namespace, action.dest, action.default)
        for key in self._defaults:
            if not hasattr(namespace, key):
                setattr(namespace, key, self._defaults[key])

        seen = []
        given = []
        extras = []
        waiting = list(self._positionals)
        index = 0
        while index < len(args):
            option, explicit = self._option(args[index])
            if option is not None:
                action = self._option_string_actions[option]
                index += 1
                if explicit is not None:
                    if action.nargs == 0:
                        self.error("ignored explicit argument")
                    values = [explicit]
                else:
                    stop = index
                    while stop < len(args) and self._plain(args[stop]):
                        stop += 1
                    count = self._number(action.nargs, stop - index)
                    values = args[index:index + count]
                    index += count
                self._take(action, namespace, values, option, seen, given)
            elif not self._plain(args[index]):
                extras.append(args[index])
                index += 1
            else:
                stop = index
                while stop < len(args) and self._plain(args[stop]):
                    stop += 1
                if not waiting:
                    extras.extend(args[index:stop])
                    index = stop
                    continue
                start = index
                while waiting:
                    action = waiting[0]
                    if action.nargs == PARSER:
                        waiting.pop(0)
                        self._take(action, namespace, args[index:], None, seen, given)
                        index = len(args)
                        break
                    if stop - index < self._minimum(action.nargs):
                        break
                    later = 0
                    for other in waiting[1:]:
                        later += self._minimum(other.nargs)
                    count = self._number(action.nargs, max(stop - index - later, 0))
                    if count == 0 and index < stop:
                        break
                    waiting.pop(0)
                    self._take(action, namespace, args[index:index + count], None, seen, given)
                    index += count
                    if index == stop:
                        break
                if index == start:
                    extras.extend(args[index:stop])
                    index = stop

        for action in list(waiting):
            if self._minimum(action.nargs) == 0:
                self._take(action, namespace, [], None, seen, [])

        for action in self._actions:
            if action not in seen:
                if action.required:
                    self.error("the following arguments are required: " + str(action.dest))
                if isinstance(action.default, str) and hasattr(namespace, action.dest) and action.default is getattr(namespace, action.dest):
                    setattr(namespace, action.dest, self._get_value(action, action.default))
        for group in self._exclusive:
            if group.required and not any([action in given for action in group._actions]):
                self.error("one of the arguments is required")
        if hasattr(namespace, "_unrecognized"):
            extras.extend(namespace._unrecognized)
            delattr(namespace, "_unrecognized")
        return namespace, extras

    def _option(self, arg):
        if not isinstance(arg, str) or len(arg) < 2 or arg[0] not in self.prefix_chars:
            return None, None
        if arg in self._option_string_actions:
            return arg, None
        name, explicit = arg, None
        if "=" in arg:
            name, explicit = arg.split("=", 1)
            if name in self._option_string_actions:
                return name, explicit
        if arg[1] in self.prefix_chars:
            if self.allow_abbrev:
                found = []
                for option in self._option_string_actions:
                    if option.startswith(name):
                        found.append(option)
                if len(found) > 1:
                    self.error("ambiguous option: " + arg)
                if found:
                    return found[0], explicit
        elif arg[:2] in self._option_string_actions:
            return arg[:2], arg[2:]
        return None, None

    def _plain(self, arg):
        if not isinstance(arg, str):
            return True
        if len(arg) < 2 or arg[0] not in self.prefix_chars:
            return True
        if self._option(arg)[0] is not None:
            return False
        if " " in arg:
            return True
        return arg[0] == "-" and arg[1] in "0123456789."

    def _minimum(self, nargs):
        if nargs is None or nargs == ONE_OR_MORE or nargs == PARSER:
            return 1
        if isinstance(nargs, int):
            return nargs
        return 0

    def _number(self, nargs, available):
        if nargs is None:
            if available < 1:
                self.error("expected one argument")
            return 1
        if nargs == OPTIONAL:
            return 1 if available > 0 else 0
        if nargs == ZERO_OR_MORE:
            return available
        if nargs == ONE_OR_MORE:
            if available < 1:
                self.error("expected at least one argument")
            return available
        if available < nargs:
            self.error("wrong number of arguments")
        return nargs

    def _take(self, action, namespace, strings, option, seen, given):
        seen.append(action)
        values = self._get_values(action, strings)
        if strings or option is not None:
            given.append(action)
            for group in self._exclusive:
                if action in group._actions:
                    for other in group._actions:
                        if other is not action and other in given:
                            self.error("not allowed with argument")
        if values != SUPPRESS:
            action(self, namespace, values, option)

    def _get_values(self, action, strings):
        if not strings and action.nargs == OPTIONAL:
            value = action.const if action.option_strings else action.default
            if isinstance(value, str):
                value = self._get_value(action, value)
                self._check_value(action, value)
            return value
        if not strings and action.nargs == ZERO_OR_MORE and not action.option_strings:
            if action.default is not None:
                return action.default
            return strings
        if action.nargs is None or action.nargs == OPTIONAL:
            value = self._get_value(action, strings[0])
            self._check_value(action, value)
            return value
        if action.nargs == PARSER:
            self._check_value(action, strings[0])
            return strings
        values = []
        for string in strings:
            value = self._get_value(action, string)
            self._check_value(action, value)
            values.append(value)
        return values

    def _get_value(self, action, string):
        if action.type is None:
            return string
        try:
            return action.type(string)
        except ArgumentTypeError:
            self.error("invalid value")
        except (TypeError, ValueError):
            self.error("invalid value")

    def _check_value(self, action, value):
        if action.choices is not None and value not in action.choices:
            self.error("invalid choice")

    def format_usage(self):
        return "usage: "

    def format_help(self):
        return "usage: "

    def print_usage(self, file=None):
        pass

    def print_help(self, file=None):
        _PRINTED.append(self)

    def exit(self, status=0, message=None):
        raise SystemExit(status)

    def error(self, message):
        raise SystemExit(2, self.prog, message)


_PRINTED = []
_ARGV = []
