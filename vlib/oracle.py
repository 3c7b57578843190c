"""Mathematical definitions the real functions are compared with (unbounded integers)."""
E5, E12, E19, E24, E25, E28 = 10**5, 10**12, 10**19, 10**24, 10**25, 10**28
def cdiv(a, b): return -((-a) // b)
SCALE = dict(FeeGrowth=28, FixedPoint=12, Liquidity=5, Percentage=12, SecondsPerLiquidity=25, SqrtPrice=24, TokenAmount=0)
WIDTH = dict(FeeGrowth=128, FixedPoint=128, Liquidity=256, Percentage=64, SecondsPerLiquidity=128, SqrtPrice=128, TokenAmount=256)
