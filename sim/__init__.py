"""Deterministic simulation of openptv-python: seeded workloads, faults, schedules."""
