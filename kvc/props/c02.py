"""C02 stack memory resource: memory is reused, each chunk freed once"""
import props.stack as S

PROPERTY = 'C02'
DRIVER = 'c01.cpp'
TARGETS = S.targets(True)
