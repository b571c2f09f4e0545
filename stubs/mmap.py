# bitstring imports mmap for file-backed data only; Jython has no mmap module
ACCESS_READ = 1


class mmap(object):
  pass
