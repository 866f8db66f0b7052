PROPERTY = 'P08'
NEEDS = 'a node with its own item class, replaced as a whole'
BREAKS = 'the new child nodes are of another class'
EDITS = [('jschon/json.py', '''        If `path` is empty, the value of `self` is replaced by `obj`.

        *Experimental.*
        """
        if not path:
            self.__init__(
                obj.value if isinstance(obj, JSON) else obj,
                parent=self.parent,
                key=self.key,
                itemclass=self.itemclass,
                **self.itemkwargs,
            )
            self._invalidate_value()
            return

        if not isinstance(path, JSONPointer):
            path = JSONPointer(path)

        try:
            target: JSON''', '''        If `path` is empty, the value of `self` is replaced by `obj`.

        *Experimental.*
        """
        if not path:
            self.__init__(
                obj.value if isinstance(obj, JSON) else obj,
                parent=self.parent,
                key=self.key,
                **self.itemkwargs,
            )
            self._invalidate_value()
            return

        if not isinstance(path, JSONPointer):
            path = JSONPointer(path)

        try:
            target: JSON''')]
DEMO = r'''
from jschon import JSON
class J(JSON): pass
d = JSON({'a': [1]}, itemclass=J)
d.replace('', [1, 2])
assert type(d[1]) is J, type(d[1])
'''
