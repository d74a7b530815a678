"""Stand-ins for files, json, csv and HDF5: nothing real is read or written."""
import io
import os
import pathlib

from ..eng import npshim as N
from ..eng import val as V


def plain(x):
    return str.__str__(x) if isinstance(x, str) else x


class Disk:
    """A file system of named objects; records what is opened and how."""

    def __init__(self, files=None):
        self.files = dict(files or {})
        self.log = []

    @staticmethod
    def key(name):
        return os.path.normpath(plain(os.fspath(name)))

    def open(self, name, mode="r", *a, **k):
        self.log.append(("open", self.key(name), mode))
        if any(c in mode for c in "wxa+"):
            raise PermissionError("the contract allows no write to %s" % name)
        if self.key(name) not in self.files:
            raise FileNotFoundError(2, "No such file", str(name))
        return Handle(self, self.key(name))

    def path(self):
        disk = self

        class Path(type(pathlib.Path())):
            def __new__(cls, *a, **k):
                return super().__new__(cls, *map(plain, a), **k)

            def __init__(self, *a):
                if pathlib.Path.__init__ is not object.__init__:
                    super().__init__(*map(plain, a))

            def open(self, mode="r", *a, **k):
                return disk.open(self, mode, *a, **k)

            def read_text(self, *a, **k):
                return disk.open(self).read()

            def exists(self, *a, **k):
                return disk.key(self) in disk.files

            is_file = exists
        return N.Namespace("pathlib", dict(Path=Path, PurePath=pathlib.PurePath))

    def json(self):
        import json

        def content(x):
            if isinstance(x, Handle):
                x = x.read()
            if not isinstance(x, Text):
                return json.loads(x)
            return x.value
        return N.Namespace("json", dict(load=lambda f, **k: content(f),
                                        loads=lambda t, **k: content(t),
                                        JSONDecodeError=json.JSONDecodeError))

    def ext(self):
        return {"builtins": {"open": self.open}, "json": self.json(), "pathlib": self.path(),
                "io": N.Namespace("io", dict(open=self.open, StringIO=io.StringIO))}


class Text(str):
    """The text of a file; value is what it parses to."""

    def __new__(cls, value):
        t = str.__new__(cls, "<contents>")
        t.value = value
        return t


class Handle:
    def __init__(self, disk, key):
        self.disk, self.key, self.closed = disk, key, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def read(self, *a):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return self.disk.files[self.key]


class H5:
    """h5py: files of named datasets with the shape and element type they are created with."""

    def __init__(self, disk):
        self.disk = disk

    def ext(self):
        h = self

        class File:
            def __init__(self, name, mode="r", *a, **k):
                key = h.disk.key(name)
                h.disk.log.append(("h5", key, mode))
                old = h.disk.files.get(key)
                if mode == "r" or mode == "r+":
                    if not isinstance(old, Data):
                        raise FileNotFoundError(2, "Unable to open file", str(name))
                    self.data = old
                elif mode in ("x", "w-"):
                    if old is not None:
                        raise FileExistsError(17, "Unable to create file", str(name))
                    self.data = h.disk.files[key] = Data()
                elif mode == "w":
                    self.data = h.disk.files[key] = Data()
                elif mode == "a":
                    self.data = old if isinstance(old, Data) else Data()
                    h.disk.files[key] = self.data
                else:
                    raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
                self.mode, self.live, self.filename = mode, True, key

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.live = False

            def close(self):
                self.live = False

            def flush(self):
                pass

            def check(self):
                if not self.live:
                    raise ValueError("Not a location (invalid object)")

            def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
                self.check()
                if self.mode == "r":
                    raise ValueError("Unable to create dataset (no write intent on file)")
                if name in self.data.sets:
                    raise ValueError("Unable to create dataset (name already exists)")
                for o in k:
                    if o not in ("compression", "compression_opts", "shuffle", "chunks",
                                 "maxshape", "fletcher32", "track_times", "track_order"):
                        V.unsupported("create_dataset(%s=..)" % o)
                if data is None:
                    V.unsupported("create_dataset without data")
                a = V.as_arr(data)
                if dtype is not None:
                    a = V.cast(a, dtype)
                if shape is not None:
                    sh = N.shape_of(shape) if not isinstance(shape, tuple) or shape else ()
                    if not V.same_shape(sh, a.shape):
                        a = a.reshape(*[V.Num(d) for d in sh])
                if not a.shape and any(k.get(o) is not None and k.get(o) is not False for o in (
                        "compression", "shuffle", "chunks", "maxshape", "fletcher32")):
                    raise TypeError("Scalar datasets don't support chunk/filter options")
                self.data.sets[name] = V.from_fn(a.shape, a.snap(), a.kind)
                return Dataset(self, name)

            def __setitem__(self, name, data):
                self.create_dataset(name, data=data)

            def __getitem__(self, name):
                self.check()
                if name not in self.data.sets:
                    raise KeyError("object '%s' doesn't exist" % name)
                return Dataset(self, name)

            def __contains__(self, name):
                return name in self.data.sets

            def __delitem__(self, name):
                del self.data.sets[name]

            def __len__(self):
                return len(self.data.sets)

            def keys(self):
                self.check()
                return sorted(self.data.sets)

            def __iter__(self):
                return iter(self.keys())

            def values(self):
                return [self[k] for k in self.keys()]

            def items(self):
                return [(k, self[k]) for k in self.keys()]

            def get(self, k, d=None):
                return self[k] if k in self else d
        return N.Namespace("h5py", dict(File=File, Dataset=Dataset))


class Data:
    def __init__(self):
        self.sets = {}


class Dataset:
    """An entry of an open file: reading it gives an array."""

    def __init__(self, file, name):
        self.file, self.name = file, name

    def vg_array(self):
        self.file.check()
        a = self.file.data.sets[self.name]
        return V.from_fn(a.shape, a.snap(), a.kind)

    def __getitem__(self, k):
        a = self.vg_array()
        if isinstance(k, tuple) and not k or k is Ellipsis:
            return a
        return a[k]

    def __len__(self):
        return len(self.vg_array())

    def astype(self, t):
        return V.cast(self.vg_array(), t)

    @property
    def shape(self):
        return N.shape_tuple(self.vg_array())

    @property
    def ndim(self):
        return len(self.vg_array().shape)

    @property
    def dtype(self):
        return self.vg_array().dtype

    @property
    def size(self):
        return self.vg_array().size
