# -*- coding: utf-8 -*-
"""All property workloads."""
from base import REGISTRY
import p_runtime
import p_schema
import p_flat
import p_tree
import p_scalar
import p_ref
import p_obj
import p_valid
import p_msg
import p_default
import p_markup
import p_genshi
import p_value
import p_text
