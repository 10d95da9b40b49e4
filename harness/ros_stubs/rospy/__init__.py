from rosfake import *
from rosfake import _T as TVal
from rosfake import logdebug, loginfo, logwarn, logerr, logfatal
logerror, logwarning = logerr, logwarn
def get_time(): return Time.now().to_sec()
def get_rostime(): return Time.now()
def get_param(name, default=None): return default
def spin(): pass
