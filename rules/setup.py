from common import *
build_extractor()
print('extractor ready')
