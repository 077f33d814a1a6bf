"""Reference model: file search and document layout (never executed, only analysed)."""
import os
import zipfile

import sunspec.core.device as device
import sunspec.core.util as util


def blank(text):
    return not text or not text.strip()


def indent(elem, level=0):
    pad = '\n' + level * '  '
    if len(elem):
        if blank(elem.text):
            elem.text = pad + '  '
        if blank(elem.tail):
            elem.tail = pad
        last = elem
        for child in elem:
            util.indent(child, level + 1)
            last = child
        if blank(last.tail):
            last.tail = pad
    elif level and blank(elem.tail):
        elem.tail = pad


def pathlist_init(self, path_list=None):
    self.path = [] if path_list is None else path_list


def pathlist_add(self, path):
    self.path.append(path)


def pathlist_read(self, filename):
    for p in self.path:
        name = ''
        archive = ''
        sep = os.sep
        for part in p.split(os.sep):
            if part == '':
                name += sep
            elif name and name != sep:
                name += sep
            name += part
            if part.endswith('.zip'):
                archive = name
                if not os.path.exists(archive):
                    archive = ''
                    break
                name = ''
                sep = '/'
        if name and name != os.sep:
            name += sep
        name += filename
        if archive:
            with zipfile.ZipFile(archive) as z:
                try:
                    z.getinfo(name)
                except Exception:
                    continue
                return z.read(name)
        elif os.path.exists(name):
            with open(name, 'rb') as f:
                return f.read()
    raise NameError(filename)
