"""The units beside the product automaton and the helpers."""
import render_units, tree_units, parse_units, clone_units, file_units, lemma_units, block_units, machine_units, out_units, again_units
UNITS = lemma_units.UNITS + render_units.UNITS + tree_units.UNITS + parse_units.UNITS + clone_units.UNITS + file_units.UNITS + block_units.UNITS + machine_units.UNITS + out_units.UNITS + again_units.UNITS
