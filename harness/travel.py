"""Reference account of one person's travel, rebuilt from the outside after every day."""
from __future__ import annotations

from .lib import *


class Track:
    def __init__(self, ctx, e, a, speed_of, checks):
        self.ctx, self.e, self.a = ctx, e, a
        self.speed_of = speed_of          # (link, nth journey) -> km per day
        self.checks = checks              # "route" (C02) and/or "books" (C03)
        self.place = a.location
        self.acc = 0.0                    # km covered on the current route
        self.start_places = a.places_travelled
        self.completed = 0
        self.lifetime = getattr(a, "distance_travelled", 0.0)
        self.index = a.recent_travel_distance
        self.days = a.timesteps_since_departure
        self.normal = True                # no speed above the general maximum, no second route on one day

    def before(self):
        self.links = all_links(self.e)
        self.cum = {id(l): l.cumNumAgents for l in self.links}
        self.plan = list(self.a.route)
        self.openset = {id(l) for l in self.links}

    def c(self, grp, cond, label, msg, key=None):
        if grp in self.checks:
            self.ctx.check(cond, label, msg, key=key)

    def eq(self, grp, x, y, label, msg, key=None):
        if grp in self.checks:
            self.ctx.check_eq(x, y, label, msg, key=key)

    def after(self, maxspeed, logged=False):
        a, e = self.a, self.e
        now = a.location
        entered = []
        for l in self.links:
            entered += [l] * int(l.cumNumAgents - self.cum[id(l)])
        onlink = hasattr(now, "endpoint")
        self.c("route", onlink or any(now is x for x in e.locations), "nowhere", "the person is in no known place")
        self.c("route", bool(a.travelling) == onlink, "flag", "travelling flag does not match the place")
        at = self.place
        covered = 0.0
        legs = []           # applicable speeds of today's routes
        arrived_closed = False
        first_hop = None
        if hasattr(at, "endpoint"):
            v = self.speed_of(at, self.start_places - 1 + self.completed)
            legs.append(v)
            done = self.acc + v > at.get_distance()
            stayed = now is at and not entered
            self.c("route", iff(not stayed, done), "arrival", "a route must be left on exactly the first day its length is exceeded")
            self.c("books", iff(not stayed, done), "arrival", "advance on the route is not the applicable speed")
            if stayed:
                self.acc = self.acc + v
                covered = v
                self.c("route", list(a.route) == self.plan, "plan", "the journey changed on the way")
                at = None
            else:
                covered = at.get_distance() - self.acc
                self.acc = 0.0
                self.completed += 1
                self.lifetime = self.lifetime + at.get_distance()
                if at.closed is True:
                    at = at.startpoint
                    arrived_closed = True
                else:
                    at = at.endpoint
        if at is not None:
            order = _chain(at, entered, now)
            self.c("route", order is not None, "chain",
                   f"routes entered today do not connect {at.name} to {now.name}: {[l.name for l in entered]}")
            if order is None:
                self.place = now
                return
            if arrived_closed:
                self.c("route", not order, "closed-return", "a person brought back by a closed route travelled on")
            for i, l in enumerate(order):
                self.c("route", l.startpoint is at and id(l) in self.openset and not l.closed, "open-route", f"{l.name} entered although not open")
                if any(x.forced_redirection for x in at.links):      # overrules any plan (C32)
                    self.plan = []
                if i < len(self.plan):
                    self.c("route", l.endpoint.name == self.plan[i], "plan", "did not take the next route of the journey")
                if legs:
                    self.c("books", covered < legs[-1], "budget", "set out again although the day's travel was used up")
                    self.c("books", len(legs) < 1, "daily-total",
                           "a person who arrives and sets out again gets a full day's travel on the next route", key="second-route-full-speed")
                v = self.speed_of(l, self.start_places - 1 + self.completed)
                legs.append(v)
                last = i == len(order) - 1
                if last and now is l:
                    self.c("route", v <= l.get_distance(), "arrival", "still on a route that was covered")
                    self.acc = v
                    covered = covered + v
                    at = l
                else:
                    self.c("route", v > l.get_distance(), "arrival", "arrived before covering the route")
                    covered = covered + l.get_distance()
                    self.completed += 1
                    self.lifetime = self.lifetime + l.get_distance()
                    at = l.endpoint
            self.c("route", now is at, "place", f"expected in {at.name}, found in {now.name}")
            if hasattr(now, "endpoint") and len(order) <= len(self.plan):
                self.c("route", list(a.route) == self.plan[len(order):], "plan", "the rest of the journey is not what was planned")
        self.place = now
        # books
        self.days += 1
        self.index = (self.index + covered / maxspeed) / 2.0
        if not onlink:
            self.acc = 0.0
        self.eq("books", a.distance_travelled_on_link, self.acc if onlink else 0.0, "on-route", "distance on the current route")
        self.eq("books", a.recent_travel_distance, self.index, "index", "recent travel index")
        for v in legs:
            self.normal = band(self.normal, v <= maxspeed)
        if len(legs) > 1:
            self.normal = False
        self.c("books", a.recent_travel_distance >= 0, "index-range", "recent travel index below 0")
        self.c("books", implies(self.normal, a.recent_travel_distance <= 1), "index-range", "recent travel index above 1")
        self.eq("books", a.distance_moved_this_timestep, 0, "reset", "distance of the day not reset for the next day")
        self.eq("books", a.timesteps_since_departure, self.days, "days", "day counter")
        self.eq("books", a.places_travelled, self.start_places + self.completed, "places", "places visited")
        if logged:
            self.eq("books", a.distance_travelled, self.lifetime, "lifetime", "lifetime distance")
        self.legs, self.covered, self.entered = legs, covered, entered


def _chain(at, entered, now):
    """an order of the entered routes that leads from `at` to `now`"""
    if not entered:
        return [] if now is at else None
    for i, l in enumerate(entered):
        if l.startpoint is at:
            rest = entered[:i] + entered[i + 1:]
            if not rest and now is l:
                return [l]
            r = _chain(l.endpoint, rest, now)
            if r is not None:
                return [l] + r
    return None
