"""Collecting verdicts and writing evidence."""
import json, os, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self):
        self.viol = []         # dict(property, key, msg, where)
        self.items = {}        # property -> list of obligations discharged / analysed
        self.notes = {}

    def bad(self, prop, key, msg, where=None):
        v = dict(property=prop, key=key, msg=msg, where=where or "")
        if not any(x["property"] == prop and x["key"] == key for x in self.viol):
            self.viol.append(v)

    def ok(self, prop, what, where=None):
        self.items.setdefault(prop, []).append(dict(obligation=what, where=where or ""))

    def note(self, prop, what):
        self.notes.setdefault(prop, []).append(what)
