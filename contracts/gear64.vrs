//@@ module
//@@ fn GEAR_64 @C22
    ensures GEAR_64@ =~= gold_gear64() // @C22
