from counting import *
def tasks():
    return driver_tasks() + [select_task()]
