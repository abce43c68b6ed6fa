import query
LEVEL = 'exploration'
def check(res, tier, seed, wd, bd, scale):
    query.check(res, seed, wd, True, int(300 * scale), int(60 * scale), 'C23', {'query_memory', 'died'})
    query.check(res, seed, wd, False, int(200 * scale), int(40 * scale), 'C23j', {'query_memory', 'died'})
