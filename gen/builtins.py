"""Names of the built-in functions (the table is in spec/FuelBuiltins.tla)."""
NAMES = ['!', '!=', '%', '&', '&&', '*', '+', '-', '/', '<', '<<', '<=', '=', '==', '>', '>=', '>>', 'File-Exists', 'File-ReadAllText', 'File-WriteAllText', 'Math-Abs', 'Math-Acos', 'Math-Asin', 'Math-Atan', 'Math-Ceiling', 'Math-Cos', 'Math-Cosh', 'Math-Exp', 'Math-Floor', 'Math-Log', 'Math-Log10', 'Math-Pi', 'Math-Pow', 'Math-Round', 'Math-Sin', 'Math-Sinh', 'Math-Sqrt', 'Math-Tan', 'Math-Tanh', 'Math-Truncate', '^', '_unquote', '_unquotesplicing', 'add', 'and', 'append', 'apply', 'arg', 'args', 'argscount', 'begin', 'break', 'car', 'cdr', 'cons', 'copyright', 'date-time', 'def', 'define-macro', 'define-macro-eval', 'define-macro-expand', 'defn', 'delvar', 'dict-clear', 'dict-contains-key', 'dict-contains-value', 'dict-get', 'dict-keys', 'dict-remove', 'dict-set', 'div', 'do', 'doc', 'equal', 'eval', 'evalstr', 'first', 'float', 'flush', 'fn', 'format', 'fuel', 'gdef', 'gdefn', 'gettrace', 'help', 'htmldoc', 'if', 'import', 'int', 'lambda', 'last', 'len', 'list', 'lower-case', 'make-dict', 'map', 'mod', 'mul', 'need-l-value', 'nop', 'not', 'nth', 'or', 'parse-float', 'parse-integer', 'platform', 'pop', 'print', 'println', 'push', 'quasiquote', 'quote', 'readline', 'reduce', 'replace', 'rest', 'return', 'reverse', 'rval', 'search', 'searchdoc', 'setf', 'sleep', 'slice', 'str', 'string', 'sub', 'sym', 'tickcount', 'trace', 'trim', 'type', 'typestr', 'upper-case', 'vars', 'version', 'while', '|', '||', '~']
