import query
LEVEL = 'exploration'
def check(res, tier, seed, wd, bd, scale):
    query.check(res, seed, wd, True, int(2400 * scale), int(400 * scale), 'C15')
