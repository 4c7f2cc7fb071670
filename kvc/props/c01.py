"""C01 stack memory resource: blocks are aligned, in bounds and disjoint"""
import props.stack as S

PROPERTY = 'C01'
DRIVER = 'c01.cpp'
TARGETS = S.targets(False)
