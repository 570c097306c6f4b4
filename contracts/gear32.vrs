//@@ module
//@@ fn GEAR_32 @C22
    ensures GEAR_32@ =~= gold_gear32() // @C22
