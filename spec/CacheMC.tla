-------------------------------- MODULE CacheMC ---------------------------------
EXTENDS CacheModel
T2 == 0 :> <<<<1, 0>>, <<2, 1>>>> @@ 1 :> <<<<1, 0>>>>
T3 == 0 :> <<<<1, 1>>>> @@ 1 :> <<<<1, 2>>, <<1, 0>>>> @@ 2 :> <<>>
================================================================================
