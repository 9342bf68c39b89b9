def ignore(f): return f
unused = script = export = ignore
