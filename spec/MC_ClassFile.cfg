CONSTANTS MaxAdds = 2
          PrefixAdds = 1
          ScenAdds = 2
INIT Init
NEXT Next
INVARIANTS Decodes PoolRight StructureRight NoPrefixIsAClass TailIgnored
CHECK_DEADLOCK FALSE
