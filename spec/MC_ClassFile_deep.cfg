CONSTANTS MaxAdds = 3
          PrefixAdds = 2
          ScenAdds = 2
INIT Init
NEXT Next
INVARIANTS Decodes PoolRight StructureRight NoPrefixIsAClass TailIgnored
CHECK_DEADLOCK FALSE
