# Time steps and the calendar.  Interpreted, never executed.


@spec("_core.Timestep", "days_in_current_year", props="C18 C03")
def f(self):
    if self.year != self.end_year:
        year_end = pd.Timestamp(f'{self.end_year}-01-01').value
        ts_start = self.period.start_time.value
        return (year_end - ts_start) / 86400000000000.0
    return self.days


@spec("_core.Timestep", "days_in_next_year", props="C18 C03")
def f(self):
    if self.year != self.end_year:
        year_end = pd.Timestamp(f'{self.end_year}-01-01').value
        ts_end = self.period.end_time.value
        return (ts_end - year_end) / 86400000000000.0
    return 0


@spec("_core.Timestep", "get datetime", props="C18 C03")
def f(self):
    return self.period.to_timestamp()


@spec("timestepper.Timestepper", "__len__", props="C23")
def f(self):
    return len(self._periods)


@spec("timestepper.Timestepper", "setup", props="C23")
def f(self):
    periods = self.datetime_index
    deltas = periods.to_timestamp(how='e') - periods.to_timestamp(how='s')
    deltas = np.round(deltas.total_seconds())
    deltas = deltas / SECONDS_IN_DAY
    self._periods = periods
    self._deltas = deltas
    self.reset()
    self._dirty = False


@spec("timestepper.Timestepper", "reset", props="C23")
def f(self, start=None):
    self._current = None
    current_length = len(self)
    if start is None:
        current_index = 0
    else:
        for index, period in enumerate(self._periods):
            if period.start_time <= start < period.end_time:
                current_index = index
                break
        else:
            raise ValueError('New starting position is outside the range of the model timesteps.')
    self._next = _core.Timestep(self._periods[current_index], current_index, self._deltas[current_index])
    length_changed = self._last_length != current_length
    self._last_length = current_length
    return length_changed


@spec("timestepper.Timestepper", "__next__", props="C23")
def f(self):
    return self.next()


@spec("timestepper.Timestepper", "next", props="C23")
def f(self):
    self._current = current = self._next
    if current.index >= len(self._periods):
        raise StopIteration()
    next_index = current.index + 1
    if next_index >= len(self._periods):
        final_period = current.period + self.offset
        delta = final_period.end_time - final_period.start_time
        delta = np.round(delta.total_seconds())
        delta = delta / SECONDS_IN_DAY
        self._next = _core.Timestep(final_period, next_index, delta)
    else:
        self._next = _core.Timestep(self._periods[next_index], next_index, self._deltas[next_index])
    return current


@spec("timestepper.Timestepper", "get dirty", props="C23")
def f(self):
    return self._dirty


@spec("timestepper.Timestepper", "get start", props="C23")
def f(self):
    return self._start


@spec("timestepper.Timestepper", "set start", props="C23")
def f(self, value):
    if isinstance(value, pandas.Timestamp):
        self._start = value
    else:
        self._start = pandas.to_datetime(value)
    self._dirty = True


@spec("timestepper.Timestepper", "get start_period", props="C23")
def f(self):
    return pandas.Period(self.start, freq=self.freq)


@spec("timestepper.Timestepper", "get end", props="C23")
def f(self):
    return self._end


@spec("timestepper.Timestepper", "set end", props="C23")
def f(self, value):
    if isinstance(value, pandas.Timestamp):
        self._end = value
    else:
        self._end = pandas.to_datetime(value)
    self._dirty = True


@spec("timestepper.Timestepper", "get end_period", props="C23")
def f(self):
    return pandas.Period(self.end, freq=self.freq)


@spec("timestepper.Timestepper", "get delta", props="C23")
def f(self):
    return self._delta


@spec("timestepper.Timestepper", "set delta", props="C23")
def f(self, value):
    self._delta = value
    self._dirty = True


@spec("timestepper.Timestepper", "get freq", props="C23")
def f(self):
    d = self._delta
    if isinstance(d, int):
        freq = '{}D'.format(d)
    elif isinstance(d, datetime.timedelta):
        freq = '{}D'.format(d.days)
    else:
        freq = d
    return freq


@spec("timestepper.Timestepper", "get offset", props="C23")
def f(self):
    return pandas.tseries.frequencies.to_offset(self.freq)


@spec("timestepper.Timestepper", "get current", props="C23")
def f(self):
    return self._current


@spec("timestepper.Timestepper", "get datetime_index", props="C23")
def f(self):
    return pandas.period_range(self.start, self.end, freq=self.freq)


