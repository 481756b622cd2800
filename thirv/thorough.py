def run(rs, build, log): return {}
