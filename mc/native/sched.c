/* Scheduling points inside native code that gave up the interpreter lock.
 *
 * The extension modules of the "sched" build are linked with
 * --wrap=PyEval_SaveThread and --wrap=PyEval_RestoreThread and all native code is
 * compiled with -finstrument-functions.  A thread which released the lock
 * stops at every function entry and exit and asks the Python scheduler which
 * thread goes on. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>

static PyObject *callback = NULL;
static __thread int released = 0, busy = 0;
static unsigned long points = 0, releases = 0;

__attribute__((no_instrument_function)) static void point(void)
{
    PyGILState_STATE state;
    PyObject *result;

    if (!released || busy || callback == NULL)
        return;
    busy = 1;
    state = PyGILState_Ensure();
    points++;
    result = PyObject_CallNoArgs(callback);
    if (result == NULL)
        PyErr_Clear();
    Py_XDECREF(result);
    PyGILState_Release(state);
    busy = 0;
}

__attribute__((no_instrument_function)) PyThreadState *__wrap_PyEval_SaveThread(void)
{
    PyThreadState *state = PyEval_SaveThread();
    releases++;
    released = 1;
    point();
    return state;
}

__attribute__((no_instrument_function)) void __wrap_PyEval_RestoreThread(PyThreadState *state)
{
    point();
    released = 0;
    PyEval_RestoreThread(state);
}

__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *func, void *site)
{
    point();
}

__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *func, void *site)
{
    point();
}

__attribute__((no_instrument_function)) void verif_set_callback(PyObject *func)
{
    Py_XINCREF(func);
    Py_XSETREF(callback, func);
}

__attribute__((no_instrument_function)) unsigned long verif_points(void) { return points; }
__attribute__((no_instrument_function)) unsigned long verif_releases(void) { return releases; }
