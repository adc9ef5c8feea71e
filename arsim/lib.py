"""The library under test, imported from /repo/src (or $ARSIM_REPO/src)"""
import os
import sys
import types

SRC = os.path.join(os.environ.get("ARSIM_REPO", "/repo"), "src")
CODE = (SRC, next((os.path.join(p, "cfile") for p in sys.path if os.path.isdir(os.path.join(p, "cfile"))), SRC))   # threads switch here
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)


def load():
    """Namespace of the library's modules"""
    from . import sched
    sched.cooperative_locks()       # locks made by the library are visible to the thread scheduler
    import autosar.xml.element as element
    import autosar.xml.enumeration as enumeration
    import autosar.xml.reference as reference
    import autosar.xml.document as document
    import autosar.xml.reader as reader
    import autosar.xml.writer as writer
    import autosar.xml.workspace as workspace
    import autosar.xml.template as template
    import autosar.xml.exception as exception
    import autosar.model as model
    import autosar.generator as generator
    assert element.__file__.startswith(SRC), (element.__file__, SRC)
    return types.SimpleNamespace(element=element, enumeration=enumeration, reference=reference, document=document,
                                 reader=reader, writer=writer, workspace=workspace, template=template,
                                 exception=exception, model=model, generator=generator)
