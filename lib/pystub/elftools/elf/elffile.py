"""Stands in for pyelftools: finds a section by name (64 bit little endian ELF)."""
import struct


class _Section:
    def __init__(self, name, data):
        self.name, self._data = name, data

    def data(self):
        return self._data


class ELFFile:
    def __init__(self, stream):
        d = stream.read()
        off, = struct.unpack_from("<Q", d, 0x28)
        size, num, strndx = struct.unpack_from("<HHH", d, 0x3A)
        hdr = [struct.unpack_from("<IIQQQQIIQQ", d, off + i * size) for i in range(num)]
        names = hdr[strndx][4]
        self._sections = []
        for h in hdr:
            name = d[names + h[0]:d.index(b"\0", names + h[0])].decode()
            self._sections.append(_Section(name, d[h[4]:h[4] + h[5]] if h[1] == 1 else b""))

    def get_section_by_name(self, name):
        return next((s for s in self._sections if s.name == name), None)

    def iter_sections(self):
        return iter(self._sections)
