"""Text files in memory."""


class Doc(object):
    """a text file in memory, for both the symbolic and the real code"""

    def __init__(self, env, name, value=None, write=False):
        self.env, self.name = env, name
        self.parts = []
        self.closed = False
        self.mode = 'w' if write else 'r'
        if not write:
            self.parts.append(env.json.dumps(value))

    def __str__(self):
        return '<file %s>' % self.name

    __repr__ = __str__

    def write(self, s):
        if self.closed or self.mode != 'w':
            raise ValueError('I/O operation on closed file.')
        self.parts.append(s)

    def read(self, *a):
        if self.closed or self.mode != 'r':
            raise ValueError('I/O operation on closed file.')
        return self.parts.pop() if self.parts else ''

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def value(self):
        """the document written"""
        if len(self.parts) == 1:
            return self.env.json.loads(self.parts[0])
        docs = [p for p in self.parts if hasattr(p, 'value')]
        rest = ''.join(p for p in self.parts if not hasattr(p, 'value'))
        if docs:
            if len(docs) > 1 or rest.strip():
                raise ValueError('several texts in a JSON file')
            return self.env.json.loads(docs[0])
        return self.env.json.loads(rest)
