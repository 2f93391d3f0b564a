"""A Spark session shared by the cases of one worker. The code under test may open and stop sessions of its own: while a case
runs, stop() is put off, and a session that is gone all the same is started again."""
import os
from mon import core

_state = {}


def session(**conf):
    from pyspark.sql import SparkSession
    s = _state.get('s')
    if s is None or s.sparkContext._jsc is None:
        s = (SparkSession.builder.appName('mon').master('local[3]')
             .config('spark.driver.memory', '2g').config('spark.ui.enabled', 'false').config('spark.driver.bindAddress', '127.0.0.1')
             .config('spark.driver.host', '127.0.0.1').config('spark.sql.shuffle.partitions', '3')
             .config('spark.default.parallelism', '3').config('spark.local.dir', str(core.SCRATCH))
             .config('spark.sql.warehouse.dir', str(core.SCRATCH / 'wh'))
             .config('spark.driver.extraJavaOptions', f'-Djava.io.tmpdir={core.SCRATCH} -XX:-UsePerfData').getOrCreate())
        s.sparkContext.setLogLevel('OFF')
        _state['s'] = s
    for k, v in conf.items():
        s.conf.set(k, str(v))
    return s


class kept:
    """with kept(): sessions that the code stops stay alive"""

    def __enter__(self):
        from pyspark.sql import SparkSession
        self.real = SparkSession.stop
        SparkSession.stop = lambda s: None

    def __exit__(self, *a):
        from pyspark.sql import SparkSession
        SparkSession.stop = self.real


def close():
    s = _state.pop('s', None)
    if s is not None:
        s.stop()
