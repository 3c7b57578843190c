//@derived calc/math/types/token_amount.rs TokenAmount Default Clone Copy PartialEq PartialOrd
//@derived calc/math/types/liquidity.rs Liquidity Default Clone Copy PartialEq PartialOrd
//@derived calc/math/types/sqrt_price.rs SqrtPrice Default Clone Copy PartialEq PartialOrd
//@derived calc/math/types/percentage.rs Percentage Default Clone Copy PartialEq PartialOrd
//@derived calc/math/types/fee_growth.rs FeeGrowth Default Clone Copy PartialEq PartialOrd
//@derived calc/math/types/fixed_point.rs FixedPoint Default Clone Copy PartialEq PartialOrd
//@derived calc/math/types/seconds_per_liquidity.rs SecondsPerLiquidity Default Clone Copy PartialEq PartialOrd
